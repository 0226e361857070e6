------------------------------ MODULE Parabola ------------------------------
(***************************************************************************)
(* Summaries of a Brownian path on [0, dt]: its increment w and its time   *)
(* integral I, accumulated piece by piece.  A piece of length fdt has an    *)
(* increment a and an area H: its time integral above its starting value    *)
(* is fdt (a / 2 + H); a straight piece has H = 0.  The parabola with       *)
(* coefficients (a, b) has area H = b / sqrt(6).                            *)
(***************************************************************************)
EXTENDS Brownian

Empty(d) == [w |-> VZero(d), I |-> VZero(d), t |-> R0]
AddPiece(p, fdt, a, hh) ==
    [w |-> VAdd(p.w, a), I |-> VAdd(p.I, VScale(fdt, VAdd(p.w, VAdd(VScale(RHalf, a), hh)))), t |-> RAdd(p.t, fdt)]
(* area of the whole path, per unit of time *)
AreaOf(p) == VSub(VScale(RDiv(R1, p.t), p.I), VScale(RHalf, p.w))
=============================================================================
