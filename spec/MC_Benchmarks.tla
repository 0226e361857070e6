--------------------------- MODULE MC_Benchmarks ---------------------------
(* Moment series of SDEs whose moments are known in closed form.            *)
EXTENDS Benchmarks
CONSTANT N
VARIABLES p, t
I(n) == RInt(n)
M(c, e) == [c |-> c, e |-> e]
C1(c) == <<M(I(c), <<0, 0>>)>>
Half(n) == RQ(n, 2)
(* kind, drift, covariance *)
Ou == [kind : {"ou"}, m : {0, 1, -2}, s : {0, 1, 2}, th : {1, -1, 2}]
Gbm == [kind : {"gbm"}, x0 : {1, 2}, al : {1, -1, 0}, be : {0, 1}]
IbmP == [kind : {"ibm"}, v : {0, 1}, s : {1, 2}]
Cir == [kind : {"cir"}, x0 : {1, 3}, th : {1}, s : {1, 2}, m : {1, 2}]
Ps == Ou \cup Gbm \cup IbmP \cup Cir
Ts == {R0, RHalf, R1, RQ(1, 10)}
Init == p \in Ps /\ t = R0
Next == \E u \in Ts : t = R0 /\ t' = u /\ p' = p
Spec == Init /\ [][Next]_<<p, t>>
D == IF p.kind = "ibm" THEN 2 ELSE 1
Drift == CASE p.kind = "ou" -> <<<<M(I(p.m), <<0, 0>>), M(I(-p.th), <<1, 0>>)>>>>
           [] p.kind = "gbm" -> <<<<M(I(p.al * p.x0), <<0, 0>>), M(I(p.al), <<1, 0>>)>>>>
           [] p.kind = "ibm" -> <<<<M(I(p.v), <<0, 0, 0>>), M(R1, <<0, 1, 0>>)>>, <<>>>>
           [] p.kind = "cir" -> <<<<M(I(p.th * (p.m - p.x0)), <<0, 0>>), M(I(-p.th), <<1, 0>>)>>>>
Cov == CASE p.kind = "ou" -> <<<<C1(p.s * p.s)>>>>
         [] p.kind = "gbm" -> <<<<<<M(I(p.be * p.x0 * p.x0), <<0, 0>>), M(I(2 * p.be * p.x0), <<1, 0>>), M(I(p.be), <<2, 0>>)>>>>>>
         [] p.kind = "ibm" -> <<<< <<>>, <<>> >>, << <<>>, <<M(I(p.s), <<0, 0, 0>>)>> >>>>
         [] p.kind = "cir" -> <<<<<<M(I(p.s * p.x0), <<0, 0>>), M(I(p.s), <<1, 0>>)>>>>>>
Mean(i) == Ser(MeanC(Drift, Cov, i, N), t)
Var(i, j) == Ser(CovC(Drift, Cov, i, j, N), t)
e12 == RPow(RQ(1, 10000), 3)
Nr(x, y) == Near(x, y, e12)
E(k) == RExp(RMul(k, t))
OuOk == p.kind = "ou" =>
    LET th == I(p.th) x0 == R0 e == E(RNeg(th)) IN
    /\ Nr(Mean(1), RDiv(RMul(I(p.m), RSub(R1, e)), th))
    /\ Nr(Var(1, 1), RDiv(RMul(I(p.s * p.s), RSub(R1, RSq(e))), RMul(R2, th)))
GbmOk == p.kind = "gbm" =>
    LET e == E(I(p.al)) IN
    /\ Nr(Mean(1), RMul(I(p.x0), RSub(e, R1)))
    /\ Nr(Var(1, 1), RMul(I(p.x0 * p.x0), RMul(RSq(e), RSub(E(I(p.be)), R1))))
IbmOk == p.kind = "ibm" =>
    /\ Nr(Mean(1), RMul(I(p.v), t)) /\ Nr(Mean(2), R0)
    /\ Nr(Var(1, 1), RMul(RQ(p.s, 3), RPow(t, 3))) /\ Nr(Var(1, 2), RMul(RQ(p.s, 2), RSq(t)))
    /\ Nr(Var(2, 2), RMul(I(p.s), t))
CirOk == p.kind = "cir" =>
    LET e == E(R0) f == E(I(-1)) m == I(p.m) x == I(p.x0) s == I(p.s) IN
    /\ Nr(Mean(1), RMul(RSub(m, x), RSub(R1, f)))
    /\ Nr(Var(1, 1), RAdd(RMul(RMul(x, s), RSub(f, RSq(f))), RMul(RMul(m, RMul(s, RHalf)), RSq(RSub(R1, f)))))
Nonneg == RLe(RNeg(e12), Var(1, 1))
=============================================================================
