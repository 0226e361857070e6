---------------------------- MODULE MC_Parabola ----------------------------
(* All fine paths of at most four pieces (one coordinate): the coarse       *)
(* parabola built from increment and area is the one that preserves         *)
(* increment and time integral; summarising in two stages is the same.      *)
EXTENDS Parabola
VARIABLES p, pieces, n, mid
vars == <<p, pieces, n, mid>>
Fdt == {RHalf, R2}
Init == /\ p = Empty(1) /\ pieces = <<>> /\ n \in 1..4 /\ mid = 0
Next == /\ Len(pieces) < n
        /\ \E a \in {-1, 0, 2} : \E hh \in {-1, 1} :
              LET f == RHalf
              IN  /\ p' = AddPiece(p, f, <<RInt(a)>>, <<RInt(hh)>>)
                  /\ pieces' = Append(pieces, <<f, RInt(a), RInt(hh)>>)
        /\ UNCHANGED <<n, mid>>
Spec == Init /\ [][Next]_vars
(* the parabola with these coefficients: value at the end, time integral    *)
(* (b = sqrt(6) H, so sqrt(6) b u (1 - u) = 6 H u (1 - u))                   *)
ParH(t, dt, a, hh) == LET u == RDiv(t, dt) IN RAdd(RMul(a, u), RMul(RMul(RInt(6), hh), RMul(u, RSub(R1, u))))
(* Simpson's rule is exact for quadratics *)
Simpson(dt, a, hh) == RMul(RDiv(dt, RInt(6)), RSum(<<ParH(R0, dt, a, hh), RMul(RInt(4), ParH(RMul(dt, RHalf), dt, a, hh)), ParH(dt, dt, a, hh)>>))
Preserves == pieces # <<>> =>
    /\ ParH(p.t, p.t, p.w[1], AreaOf(p)[1]) = p.w[1]
    /\ ParH(R0, p.t, p.w[1], AreaOf(p)[1]) = R0
    /\ Simpson(p.t, p.w[1], AreaOf(p)[1]) = p.I[1]
(* summarise the first m pieces by one parabola, continue with the rest *)
RECURSIVE Run(_, _, _)
Run(q, i, j) == IF i > j THEN q ELSE Run(TLCEval(AddPiece(q, pieces[i][1], <<pieces[i][2]>>, <<pieces[i][3]>>)), i + 1, j)
TwoStage == \A m \in 1..(Len(pieces) - 1) :
    LET a == Run(Empty(1), 1, m) b == Run(Empty(1), m + 1, Len(pieces))
        c == AddPiece(AddPiece(Empty(1), a.t, a.w, AreaOf(a)), b.t, b.w, AreaOf(b))
    IN  c = p
=============================================================================
