---------------------------- MODULE MC_OdeFilter ----------------------------
(***************************************************************************)
(* Gaussian ODE filters on small problems.  Ghosts: hist collects the       *)
(* innovations; parts are the filters of the separate coordinates, perm the *)
(* filter of the problem with coordinates exchanged, big the filter with a  *)
(* rescaled prior, other the filter with the other linearisation.           *)
(***************************************************************************)
EXTENDS OdeFilter, Json
VARIABLES c, k, g, parts, perm, big, other, hist
vars == <<c, k, g, parts, perm, big, other, hist>>

Mo(a, ex) == [c |-> RInt(a), e |-> ex]
F1 == {<<<<>>>>, <<<<Mo(2, <<0, 0>>)>>>>, <<<<Mo(-1, <<1, 0>>)>>>>, <<<<Mo(1, <<0, 1>>), Mo(1, <<0, 0>>)>>>>,
       <<<<Mo(1, <<2, 0>>), Mo(-2, <<0, 1>>)>>>>, <<<<Mo(1, <<1, 1>>), Mo(3, <<0, 0>>)>>>>}
Lift1(f, i) == [j \in 1..Len(f[1]) |-> [c |-> f[1][j].c,
                   e |-> <<IF i = 1 THEN f[1][j].e[1] ELSE 0, IF i = 2 THEN f[1][j].e[1] ELSE 0, f[1][j].e[2]>>]]
F2 == {<<Lift1(a, 1), Lift1(b, 2)>> : a \in F1, b \in F1}                 \* uncoupled
      \cup {<<<<Mo(1, <<0, 1, 0>>)>>, <<Mo(-2, <<1, 0, 0>>), Mo(1, <<0, 0, 1>>)>>>>,
            <<<<Mo(1, <<1, 1, 0>>)>>, <<Mo(1, <<0, 2, 0>>), Mo(-1, <<1, 0, 1>>)>>>>}
Ys == <<RInt(1), RInt(-2)>>
Ms(d) == IF d = 1 THEN <<<<RInt(3)>>>> ELSE <<<<RInt(2), RInt(1)>>, <<RInt(1), RInt(1)>>>>
Rs(d, r) == IF r = 0 THEN MZero(d, d) ELSE MScale(RInt(r), MId(d))

Configs == [d : {1}, f : F1, n : {2, 3, 4}, ekf0 : BOOLEAN, mix : {FALSE}, r : {0, 1}, h : {R1, RHalf}, N : {2}]
      \cup [d : {1}, f : F1, n : {2}, ekf0 : BOOLEAN, mix : {TRUE}, r : {0, 1}, h : {R1, RHalf}, N : {2}]
      \cup [d : {2}, f : F2, n : {2, 3}, ekf0 : BOOLEAN, mix : {FALSE}, r : {0, 1}, h : {RHalf}, N : {2}]
      \cup [d : {2}, f : F2, n : {2}, ekf0 : BOOLEAN, mix : {TRUE}, r : {0, 1}, h : {RHalf}, N : {2}]

Fields(cf) == cf.f
SwapV(v, n) == IF Len(v) = n THEN v ELSE SubSeq(v, n + 1, 2 * n) \o SubSeq(v, 1, n)
SwapM(M, n) == SwapV(TLCEval([i \in 1..Len(M) |-> SwapV(M[i], n)]), n)
SwapF(f) == IF Len(f) = 1 THEN f
            ELSE [i \in 1..2 |-> [j \in 1..Len(f[3 - i]) |-> [c |-> f[3 - i][j].c,
                     e |-> <<f[3 - i][j].e[2], f[3 - i][j].e[1], f[3 - i][j].e[3]>>]]]
Uncoupled(cf) == cf.d = 1 \/ (\A i \in 1..2 : \A j \in 1..Len(cf.f[i]) : cf.f[i][j].e[3 - i] = 0)
Part(cf, i) == IF cf.d = 1 THEN cf.f
               ELSE <<[j \in 1..Len(cf.f[i]) |-> [c |-> cf.f[i][j].c, e |-> <<cf.f[i][j].e[i], cf.f[i][j].e[3]>>]]>>
Pr(cf) == Ivp(cf.f, cf.d, cf.n, Ibm(cf.n - 1, cf.h, cf.d), Rs(cf.d, cf.r), cf.ekf0)
PrBig(cf) == LET p == Ibm(cf.n - 1, cf.h, cf.d)
             IN  Ivp(cf.f, cf.d, cf.n, [p EXCEPT !.Q = MScale(RInt(4), p.Q)], Rs(cf.d, cf.r), cf.ekf0)
Y0(cf) == SubSeq(Ys, 1, cf.d)
Start(cf) == IF cf.mix THEN InitMixture(cf.f, Y0(cf), Ms(cf.d), cf.ekf0) ELSE InitFresh(cf.f, Y0(cf), cf.n)
PartStart(cf, i) == IF cf.mix THEN InitMixture(Part(cf, i), <<Ys[i]>>, <<<<Ms(cf.d)[i][i]>>>>, cf.ekf0)
                    ELSE InitFresh(Part(cf, i), <<Ys[i]>>, cf.n)
PermStart(cf) == IF cf.mix THEN InitMixture(SwapF(cf.f), SwapV(Y0(cf), 1), SwapM(Ms(cf.d), 1), cf.ekf0)
                 ELSE InitFresh(SwapF(cf.f), SwapV(Y0(cf), 1), cf.n)
Law3(s) == [m |-> s.m, P |-> s.P]

Init == /\ c \in Configs /\ k = 0 /\ hist = <<>>
        /\ g = Start(c) /\ big = g /\ other = g
        /\ parts = [i \in 1..c.d |-> PartStart(c, i)] /\ perm = PermStart(c)
Step(x, p) == FilterStep(x, p, RMul(RInt(k + 1), c.h), R1)
Next == /\ k < c.N /\ k' = k + 1 /\ UNCHANGED c
        /\ LET r == Step(g, Pr(c))
           IN  /\ r.ok /\ g' = Law3(r) /\ hist' = Append(hist, [z |-> r.z, S |-> r.S])
        /\ big' = Law3(Step(big, PrBig(c)))
        /\ other' = Law3(Step(other, [Pr(c) EXCEPT !.mask = IF c.ekf0 THEN {} ELSE YMask(c.d, c.n)]))
        /\ parts' = [i \in 1..c.d |-> IF ~Uncoupled(c) THEN parts[i]
                        ELSE Law3(Step(parts[i], Ivp(Part(c, i), 1, c.n, Ibm(c.n - 1, c.h, 1), Rs(1, c.r), c.ekf0)))]
        /\ perm' = Law3(Step(perm, Ivp(SwapF(c.f), c.d, c.n, Ibm(c.n - 1, c.h, c.d), Rs(c.d, c.r), c.ekf0)))
        /\ (k' = c.N) => PrintT("SCEN " \o ToJson([f |-> c.f, n |-> c.n, ekf0 |-> c.ekf0, mix |-> c.mix,
                                     R |-> Rs(c.d, c.r), h |-> c.h, N |-> c.N, y0 |-> Y0(c), P0 |-> Ms(c.d)]))
Spec == Init /\ [][Next]_vars

e40 == RPow(RQ(1, 10000), 9)
Eq(a, b) == VNear(a.m, b.m, e40) /\ MNear(a.P, b.P, e40)
(* ------------------------------ properties ------------------------------ *)
Psd == MNear(g.P, MTr(g.P), e40) /\ IsPsd(MAdd(g.P, MScale(e40, MId(Len(g.P)))))
(* the derivative matches the field when f is affine and observed exactly   *)
Affine == \A i \in 1..c.d : \A j \in 1..Len(c.f[i]) :
             LET e == c.f[i][j].e IN (IF c.d = 1 THEN e[1] ELSE e[1] + e[2]) <= 1
OnTheField == (k > 0 /\ c.r = 0 /\ Affine /\ ~c.ekf0) =>
    VNear(Sel(g.m, c.n, 1), FEval(c.f, Sel(g.m, c.n, 0), RMul(RInt(k), c.h)), e40)
(* fields of degree n - 2 in time alone are integrated exactly              *)
TimeOnly == \A i \in 1..c.d : \A j \in 1..Len(c.f[i]) :
             \A v \in 1..c.d : c.f[i][j].e[v] = 0
DegT == \A i \in 1..c.d : \A j \in 1..Len(c.f[i]) : c.f[i][j].e[c.d + 1] <= c.n - 2
Quadrature(p, t) == RSum([j \in 1..Len(p) |->
    RDiv(RMul(p[j].c, RPow(t, p[j].e[c.d + 1] + 1)), RInt(p[j].e[c.d + 1] + 1))])
ExactOnPolynomials == (TimeOnly /\ DegT) =>
    VNear(Sel(g.m, c.n, 0), VAdd(Y0(c), [i \in 1..c.d |-> Quadrature(c.f[i], RMul(RInt(k), c.h))]), e40)
(* without dependence on y the two linearisations are the same              *)
SameWithoutState == TimeOnly => Eq(g, other)
(* with zero initial covariance the scale of the prior does not move means  *)
ScaleFree == (~c.mix /\ c.r = 0 /\ c.n < 4) => (VNear(g.m, big.m, e40) /\ MNear(big.P, MScale(RInt(4), g.P), e40))
(* uncoupled problems are filtered coordinate by coordinate                 *)
Decouples == (Uncoupled(c) /\ (c.mix => c.d = 1)) =>
    \A i \in 1..c.d : \A a \in 1..c.n :
        /\ Near(g.m[Ix(c.n, i, a - 1)], parts[i].m[a], e40)
        /\ \A j \in 1..c.d : \A b \in 1..c.n :
              Near(g.P[Ix(c.n, i, a - 1)][Ix(c.n, j, b - 1)], IF i = j THEN parts[i].P[a][b] ELSE R0, e40)
Permutes == Eq([m |-> SwapV(perm.m, c.n), P |-> SwapM(perm.P, c.n)], g)
(* the mixture initialisation is the image of y under y -> (y, f(m) + J(y-m)) *)
MixInit == (k = 0 /\ c.mix) =>
    LET J == IF c.ekf0 THEN MZero(c.d, c.d) ELSE JacEval(c.f, Y0(c), R0)
        G == [r \in 1..(2 * c.d) |-> IF r % 2 = 1 THEN VUnit(c.d, (r + 1) \div 2) ELSE J[r \div 2]]
    IN  g.P = MSandwich(G, Ms(c.d)) /\ Sel(g.m, 2, 1) = FEval(c.f, Y0(c), R0)
        /\ InitMixture(c.f, Y0(c), MZero(c.d, c.d), c.ekf0) = InitFresh(c.f, Y0(c), 2)
(* calibration: the maximiser of the likelihood, and its scaling            *)
CalScale == (k > 0) =>
    LET zs == [i \in 1..k |-> hist[i].z] Ss == [i \in 1..k |-> hist[i].S]
        m == Mle(zs, Ss)
    IN  /\ Near(Mle(zs, [i \in 1..k |-> MScale(RInt(3), Ss[i])]), RDiv(m, RInt(3)), e40)
        /\ Near(Mle([i \in 1..k |-> VScale(RInt(3), zs[i])], Ss), RMul(RInt(9), m), e40)
        /\ RLe(R0, m)
=============================================================================
