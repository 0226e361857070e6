---------------------------- MODULE MC_Pathwise ----------------------------
(* All paths of at most two cells of at most three pieces (one coordinate), *)
(* with the fine run, the coarse run and the cell by cell run along them.   *)
EXTENDS Pathwise
VARIABLES pr, n, k, j, p, W, Wc, y, yc, yr
vars == <<pr, n, k, j, p, W, Wc, y, yc, yr>>

M(c, e) == [c |-> RInt(c), e |-> e]
Delta == R2
Cells == 2
F == RDiv(Delta, RInt(n))
Problems == {[b |-> <<<<>>>>, sg |-> <<<<<<M(3, <<0, 0>>)>>>>>>, kind |-> "additive"],
             [b |-> <<<<M(1, <<1, 0>>)>>>>, sg |-> <<<<<<M(1, <<1, 0>>)>>>>>>, kind |-> "linear"],
             [b |-> <<<<M(1, <<1, 1>>), M(-1, <<0, 0>>)>>>>, sg |-> <<<<<<M(2, <<0, 1>>), M(1, <<1, 0>>)>>>>>>, kind |-> "timed"]}
Init == /\ pr \in Problems /\ n \in 1..3 /\ k = 0 /\ j = 0 /\ p = Empty(1) /\ W = 0 /\ Wc = 0
        /\ y = <<R1>> /\ yc = <<R1>> /\ yr = <<R1>>
Piece(a, hh) ==
    /\ k < Cells /\ j < n
    /\ LET w == <<RInt(a)>> IN
       /\ W' = W + a
       /\ y' = FineStep(pr.b, pr.sg, y, k, j, Delta, F, w)
       /\ yr' = CellStep(pr.b, pr.sg, yr, k, j, Delta, F, w)
       /\ LET q == AddPiece(p, F, w, <<RInt(hh)>>)
          IN  IF j + 1 = n
              THEN /\ j' = 0 /\ k' = k + 1 /\ p' = Empty(1) /\ Wc' = W'
                   /\ yc' = CoarseStep(pr.b, pr.sg, yc, k, Delta, q.w)
              ELSE j' = j + 1 /\ p' = q /\ UNCHANGED <<k, yc, Wc>>
    /\ UNCHANGED <<pr, n>>
Next == \E a \in {-1, 0, 2} : \E hh \in {0, 1} : Piece(a, hh)
Spec == Init /\ [][Next]_vars

(* the coarse path is the fine path seen at the ends of the cells *)
Coarse == INSTANCE CoarseGrid WITH Values <- -12..12, W <- Wc
Refines == Coarse!Spec
SamePath == j = 0 => Wc = W
InCell == p.w = <<RInt(W - Wc)>>
(* additive noise without drift: both runs are the path *)
Follows == pr.kind = "additive" => /\ y = <<RAdd(R1, RMul(RInt(3), RInt(W)))>>
                                   /\ j = 0 => yc = y
(* one piece per cell: there is only one run *)
OnePiece == n = 1 => yc = y
(* a run cell by cell, each from time zero with the fields shifted *)
CellByCell == yr = y
=============================================================================
