----------------------------- MODULE T_ItoStrat -----------------------------
(* Chains of conversions by the code, each followed by evaluations of the  *)
(* drift and diffusion it returned.                                        *)
EXTENDS ItoStrat, TraceBase

(* the size of the terms of a polynomial: rounding is relative to it *)
PAbs(p) == TLCEval([k \in 1..Len(p) |-> [p[k] EXCEPT !.c = RAbs(@)]])
Size(p, x, t) == PEval(PAbs(p), [i \in 1..Len(x) |-> RAbs(x[i])], RAbs(t))
FNear(v, f, x, t) == IsVec(v, Len(f)) /\ VFinite(v)
                     /\ \A i \in 1..Len(f) : NearS(v[i], PEval(f[i], x, t), Tol, RAdd(R1, Size(f[i], x, t)))
JNear(M, f, x, t) == Len(M) = Len(f) /\ \A i \in 1..Len(f) : FNear(M[i], Grad(f[i], Len(x)), x, t)

Convert == /\ Is("Convert")
           /\ Consume({}, [s EXCEPT !.drift = IF Ev.op = "to_ito" THEN ItoDrift(@, s.sigma)
                                              ELSE StratDrift(@, s.sigma)])
Eval == /\ Is("Eval")
        /\ Consume(Chk("Drift", FNear(Ev.v, s.drift, Ev.x, Ev.t))
                   \cup Chk("DriftJacobian", Ev.J = <<>> \/ JNear(Ev.J, s.drift, Ev.x, Ev.t))
                   \cup Chk("DriftTimeDerivative", Ev.J = <<>> \/ FNear(Ev.Jt, [i \in 1..Len(s.drift) |-> PD(s.drift[i], Len(Ev.x) + 1)], Ev.x, Ev.t))
                   \cup Chk("Diffusion", MNear(Ev.sg, MFEval(s.sigma, Ev.x, Ev.t), Tol))
                   \cup (IF s.back THEN Chk("RoundTrip", \A i \in 1..Len(H.drift) : NearS(Ev.v[i], PEval(H.drift[i], Ev.x, Ev.t), Tol,
                                                                      RAdd(R1, Size(s.drift[i], Ev.x, Ev.t)))) ELSE {}), s)
(* the chain has returned to the calculus it started from *)
Back == Is("Back") /\ Consume({}, [s EXCEPT !.back = TRUE])
Corr == /\ Is("Correction")
        /\ Consume(Chk("Correction", FNear(Ev.v, Correction(s.sigma, Len(H.drift)), Ev.x, Ev.t)), s)
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = [drift |-> H.drift, sigma |-> H.sigma, back |-> FALSE] /\ bad = {}
Next == l <= Len(T.ev) /\ (Convert \/ Eval \/ Back \/ Corr \/ Raised)
Spec == Init /\ [][Next]_tvars
=============================================================================
