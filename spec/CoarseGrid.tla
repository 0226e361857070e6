----------------------------- MODULE CoarseGrid -----------------------------
(* What a user of the coarse run sees: the time advances by one cell, the   *)
(* Brownian path by any increment.                                          *)
EXTENDS Integers
CONSTANTS Cells, Values
VARIABLES k, W
Init == k = 0 /\ W = 0
Step == k < Cells /\ k' = k + 1 /\ W' \in Values
Spec == Init /\ [][Step]_<<k, W>>
=============================================================================
