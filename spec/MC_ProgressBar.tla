--------------------------- MODULE MC_ProgressBar ---------------------------
(***************************************************************************)
(* The algorithm: at most about a thousand updates, each by `rate`         *)
(* iterations as its block starts, the last one by the remainder.  It      *)
(* refines ProgressBar, for every number of iterations up to MaxN.         *)
(***************************************************************************)
EXTENDS ProgressBar, TLC
CONSTANTS Cap, Sizes       \* updates wanted (1000 in the code), values of N
VARIABLES i, pc            \* iteration, point within it
vars == <<N, st, n, i, pc>>
Rate == IF N > Cap THEN N \div Cap ELSE 1
Rem == N % Rate
Init == N \in Sizes /\ st = "none" /\ n = 0 /\ i = 0 /\ pc = "open"
OpenI == pc = "open" /\ pc' = "block" /\ i' = i /\ IF i = 0 THEN Open ELSE UNCHANGED pvars
Block == pc = "block" /\ pc' = "rest" /\ i' = i
         /\ IF i % Rate = 0 /\ i # N - Rem THEN Update(Rate) ELSE UNCHANGED pvars
Rest == pc = "rest" /\ pc' = "body" /\ i' = i
        /\ IF i = N - Rem THEN Update(Rem) ELSE UNCHANGED pvars
Body == pc = "body" /\ pc' = "close" /\ i' = i /\ UNCHANGED pvars
CloseI == pc = "close" /\ i' = i + 1 /\ pc' = (IF i = N - 1 THEN "done" ELSE "open")
          /\ IF i = N - 1 THEN Close ELSE UNCHANGED pvars
Next == OpenI \/ Block \/ Rest \/ Body \/ CloseI
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Refines == [][PNext]_pvars
(* the algorithm never blocks: a guard of the abstract bar that refused a step of it would *)
Progress == pc = "done" \/ ENABLED Next
(* updates are never behind nor more than a block ahead *)
Current == (pc = "close" /\ st = "open") => (i < n /\ n <= i + Rate)
Finished == pc = "done" => (st = "closed" /\ n = N /\ i = N)
AtMost == Rate * Cap <= N \/ Rate = 1
Terminates == <>(pc = "done")
(* sizes with every kind of remainder *)
Small == 1..40
Large == {1, 2, 999, 1000, 1001, 1500, 1999, 2000, 2001, 2999, 3333}
=============================================================================
