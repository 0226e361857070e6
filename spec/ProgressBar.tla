----------------------------- MODULE ProgressBar -----------------------------
(***************************************************************************)
(* What a user sees of the progress bar of a scan of N iterations: one bar *)
(* is opened before anything else, updates account for iterations that     *)
(* have started, never more than N, and it is closed when it is full.      *)
(***************************************************************************)
EXTENDS Integers
VARIABLES N,      \* iterations
          st,     \* "none", "open", "closed"
          n       \* iterations accounted for
pvars == <<N, st, n>>
PInit == N \in Nat \ {0} /\ st = "none" /\ n = 0
Open == st = "none" /\ st' = "open" /\ UNCHANGED <<N, n>>
Update(k) == st = "open" /\ k >= 0 /\ n + k <= N /\ n' = n + k /\ UNCHANGED <<N, st>>
Close == st = "open" /\ n = N /\ st' = "closed" /\ UNCHANGED <<N, n>>
PNext == Open \/ (\E k \in 0..N : Update(k)) \/ Close
PSpec == PInit /\ [][PNext]_pvars
Bounded == 0 <= n /\ n <= N
ClosedFull == st = "closed" => n = N
=============================================================================
