----------------------------- MODULE T_Parabola -----------------------------
(* Evaluations of the approximations, and fine paths with their summaries.  *)
EXTENDS Parabola, Law, TraceBase

(* value and slope of the approximation at a time *)
Eval == /\ Is("Eval")
        /\ Consume(Chk("Value", \A i \in 1..Len(Ev.v) : Near(Ev.v[i], Parab(Ev.t, Ev.dt, Ev.c[1][i], Ev.c[2][i]), Tol))
                   \cup Chk("Slope", \A i \in 1..Len(Ev.dv) : Near(Ev.dv[i], ParabD(Ev.t, Ev.dt, Ev.c[1][i], Ev.c[2][i]), Tol))
                   \cup Chk("EvalShape", Len(Ev.v) = Len(Ev.c[1]) /\ Len(Ev.dv) = Len(Ev.c[1])), s)
Begin == Is("Begin") /\ Consume({}, Empty(H.d))
(* one piece of the fine path: "path" pieces are standard normal increments *)
(* of a piecewise linear path, "fine" pieces are parabolas with area h      *)
Piece == /\ Is("Piece")
         /\ LET f == RDiv(H.dt, RInt(H.n))
            IN  Consume(Chk("NotFinite", VFinite(Ev.inc) /\ (H.src = "fine" => VFinite(Ev.h))),
                        IF H.src = "path" THEN AddPiece(s, f, VScale(Root(f), Ev.inc), VZero(H.d))
                        ELSE AddPiece(s, f, Ev.inc, Ev.h))
Coarse == /\ Is("Coarse")
          /\ Consume(Chk("Pieces", Near(s.t, H.dt, Tol))
                     \cup Chk("Increment", VNear(Ev.c[1], s.w, Tol))
                     \cup Chk("Area", VNear(Ev.c[2], VScale(Sqrt6, AreaOf(s)), Tol)), s)
(* laws: coarse coefficients (a, b) per coordinate, and fine pieces          *)
Var(kind) ==
    LET f == RDiv(H.dt, RInt(H.n))
    IN  CASE kind = "parabola" -> <<H.dt, RMul(RHalf, H.dt)>>
          [] kind = "path" -> <<H.dt, RMul(RMul(RHalf, H.dt), RSub(R1, RDiv(R1, RInt(H.n * H.n))))>>
          [] kind = "incs" -> [i \in 1..H.n |-> R1]
          [] kind = "pieces" -> [i \in 1..(2 * H.n) |-> IF i <= H.n THEN f ELSE RDiv(f, RInt(12))]
LawEv == /\ Is("Law")
         /\ LET v == Var(Ev.law)
                S == MDiag([i \in 1..(H.d * Len(v)) |-> v[((i - 1) \div H.d) + 1]])
            IN  Consume(LawClauses(Ev, VZero(Len(S)), S), s)
Same == /\ Is("Same") /\ Consume(Chk("Batch", VNear(Ev.u, Ev.v, Tol)), s)

Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = Empty(1) /\ bad = {}
Next == l <= Len(T.ev) /\ (Eval \/ Begin \/ Piece \/ Coarse \/ LawEv \/ Same \/ Raised)
Spec == Init /\ [][Next]_tvars
=============================================================================
