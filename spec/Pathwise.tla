------------------------------ MODULE Pathwise ------------------------------
(***************************************************************************)
(* A solution on a coarse grid and a reference solution on a fine grid,    *)
(* both driven by one Brownian path.  Every cell of length delta is cut    *)
(* into n pieces; the fine run advances piece by piece, the coarse run     *)
(* once per cell with the summary (increment, area) of its pieces.         *)
(*   p   summary of the pieces of the current cell seen so far             *)
(*   y   the fine Euler-Maruyama run                                       *)
(*   yc  the coarse Euler-Maruyama run                                     *)
(***************************************************************************)
EXTENDS Parabola, Schemes

(* the Brownian increment of a piece, as the approximation reports it: the *)
(* pieces of a path are standard normal numbers                            *)
PieceInc(src, f, v) == IF src = "path" THEN VScale(Root(f), v) ELSE v
PieceArea(src, v, hh) == IF src = "path" THEN VZero(Len(v)) ELSE hh

FineStep(b, sg, y, k, j, delta, f, w) == EmStep(b, sg, y, RAdd(RMul(RInt(k), delta), RMul(RInt(j), f)), f, w)
CoarseStep(b, sg, yc, k, delta, w) == EmStep(b, sg, yc, RMul(RInt(k), delta), delta, w)
(* the same cell as a run of its own, from time zero *)
CellStep(b, sg, y, k, j, delta, f, w) ==
    EmStep(FShift(b, Len(y), RMul(RInt(k), delta)), MFShift(sg, Len(y), RMul(RInt(k), delta)), y, RMul(RInt(j), f), f, w)
=============================================================================
