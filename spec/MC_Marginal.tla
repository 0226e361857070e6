----------------------------- MODULE MC_Marginal -----------------------------
(* The filter with the parabola coefficients in its state.  Ghosts: plain   *)
(* is the filter of the drift alone, dec the one-dimensional filters of the *)
(* coordinates, pred the predicted law.                                     *)
EXTENDS OdeFilter, Json
VARIABLES c, k, g, pred, plain, dec
vars == <<c, k, g, pred, plain, dec>>
Mo(a, ex) == [c |-> RInt(a), e |-> ex]
B1 == {<<<<>>>>, <<<<Mo(-1, <<1, 0>>), Mo(1, <<0, 1>>)>>>>, <<<<Mo(1, <<2, 0>>)>>>>}
S1 == {<<<<<<>>>>>>, <<<<<<Mo(2, <<0, 0>>)>>>>>>, <<<<<<Mo(1, <<1, 0>>), Mo(1, <<0, 1>>)>>>>>>}
B2 == {<<<<Mo(1, <<1, 0, 0>>)>>, <<Mo(-1, <<0, 2, 0>>)>>>>, <<<<Mo(1, <<0, 1, 0>>)>>, <<Mo(1, <<1, 0, 1>>)>>>>}
S2 == {<<<<<<Mo(1, <<0, 0, 0>>)>>, <<>>>>, <<<<>>, <<Mo(3, <<0, 0, 1>>)>>>>>>,
       <<<<<<Mo(2, <<0, 0, 0>>)>>, <<Mo(1, <<0, 1, 0>>)>>>>, <<<<Mo(-1, <<0, 0, 0>>)>>, <<Mo(1, <<0, 0, 0>>)>>>>>>}
Ys == <<RInt(1), RInt(2)>>
Configs == [d : {1}, b : B1, sg : S1, ekf0 : BOOLEAN, delta : {R1, RInt(2)}, N : {2}, r : {0, 1}]
      \cup [d : {2}, b : B2, sg : S2, ekf0 : BOOLEAN, delta : {R1}, N : {2}, r : {0, 1}]
h == RDiv(c.delta, RInt(c.N))
Y0 == SubSeq(Ys, 1, c.d)
R(d, r) == IF r = 0 THEN MZero(d, d) ELSE MId(d)
(* drift and diffusion of coordinate i alone *)
Proj(p, i) == [j \in 1..Len(p) |-> [c |-> p[j].c, e |-> <<p[j].e[i], p[j].e[Len(p[j].e)]>>]]
Only(p, i, d) == \A j \in 1..Len(p) : \A v \in 1..d : v = i \/ p[j].e[v] = 0
Uncoupled == \A i \in 1..c.d : Only(c.b[i], i, c.d) /\ \A j \in 1..c.d : IF i = j THEN Only(c.sg[i][i], i, c.d) ELSE c.sg[i][j] = <<>>
Law2(x) == [m |-> x.m, P |-> x.P]
Init == /\ c \in Configs /\ k = 0
        /\ g = InitMarg(c.b, c.sg, Y0, c.delta) /\ pred = g
        /\ plain = InitFresh(c.b, Y0, 2)
        /\ dec = [i \in 1..c.d |-> InitMarg(<<Proj(c.b[i], i)>>, <<<<Proj(c.sg[i][i], i)>>>>, <<Ys[i]>>, c.delta)]
T == RMul(RInt(k + 1), h)
Next == /\ k < c.N /\ k' = k + 1 /\ c' = c
        /\ LET pr == Marg(c.b, c.sg, c.d, c.delta, Ibm(1, h, 1), R(c.d, c.r), c.ekf0)
               r == FilterStep(g, pr, T, R1)
           IN  r.ok /\ g' = Law2(r) /\ pred' = Predict(g, pr.A, pr.Q, pr.xi)
        /\ plain' = Law2(FilterStep(plain, Ivp(c.b, c.d, 2, Ibm(1, h, c.d), R(c.d, c.r), c.ekf0), T, R1))
        /\ dec' = [i \in 1..c.d |-> IF ~Uncoupled THEN dec[i] ELSE
                     Law2(FilterStep(dec[i], Marg(<<Proj(c.b[i], i)>>, <<<<Proj(c.sg[i][i], i)>>>>, 1, c.delta,
                                                  Ibm(1, h, 1), R(1, c.r), c.ekf0), T, R1))]
        /\ (k' = c.N) => PrintT("SCEN " \o ToJson([b |-> c.b, sg |-> c.sg, y0 |-> Y0, delta |-> c.delta, h |-> h,
                                    N |-> c.N, R |-> R(c.d, c.r), ekf0 |-> c.ekf0]))
Spec == Init /\ [][Next]_vars

e30 == RPow(RQ(1, 10000), 8)
Psd == MNear(g.P, MTr(g.P), e30) /\ IsPsd(MAdd(g.P, MScale(e30, MId(Len(g.P)))))
(* the initial law is the law of (y0, y0'(w, a), w, a) for the parabola of   *)
(* coefficients w, a: y0' = b + sigma W'(0)                                 *)
InitIsJoint == k = 0 =>
    LET S == MFEval(c.sg, Y0, R0)
        z == MZero(c.d, c.d)
        G == TLCEval([r \in 1..(4 * c.d) |->
                LET i == ((r - 1) \div 4) + 1 j == (r - 1) % 4
                    half(q) == CASE j = 0 -> VZero(c.d)
                               [] j = 1 -> VScale(IF q = 2 THEN RDiv(R1, c.delta) ELSE RDiv(Rt6, c.delta), S[i])
                               [] OTHER -> IF j = q THEN VUnit(c.d, i) ELSE VZero(c.d)
                IN  half(2) \o half(3)])
        C == MDiag([i \in 1..(2 * c.d) |-> IF i <= c.d THEN c.delta ELSE RMul(RHalf, c.delta)])
    IN  MNear(g.P, MSandwich(G, C), e30)
(* prediction leaves the coefficients alone: no element of the law of       *)
(* (w, a) changes between the filtered and the next predicted state         *)
Coef(M) == [i \in 1..c.d |-> <<Sel(M[Ix(4, i, 2)], 4, 2), Sel(M[Ix(4, i, 2)], 4, 3), Sel(M[Ix(4, i, 3)], 4, 3)>>]
CoefficientsRest == [][Coef(pred'.P) = Coef(g.P) /\ Sel(pred'.m, 4, 2) = Sel(g.m, 4, 2)
                        /\ Sel(pred'.m, 4, 3) = Sel(g.m, 4, 3)]_vars
(* without noise the coefficients keep their law, and y, y' are filtered as *)
(* by the plain filter of the drift                                         *)
NoNoise == (\A i, j \in 1..c.d : c.sg[i][j] = <<>>) =>
    /\ VNear(Sel(g.m, 4, 0), Sel(plain.m, 2, 0), e30) /\ VNear(Sel(g.m, 4, 1), Sel(plain.m, 2, 1), e30)
    /\ MNear(SelM(g.P, 4, 0), SelM(plain.P, 2, 0), e30)
    /\ SelM(g.P, 4, 2) = MScale(c.delta, MId(c.d)) /\ SelM(g.P, 4, 3) = MScale(RMul(RHalf, c.delta), MId(c.d))
Decouples == Uncoupled => \A i \in 1..c.d : \A a \in 0..3 :
    /\ Near(g.m[Ix(4, i, a)], dec[i].m[a + 1], e30)
    /\ \A j \in 1..c.d : \A b \in 0..3 :
          Near(g.P[Ix(4, i, a)][Ix(4, j, b)], IF i = j THEN dec[i].P[a + 1][b + 1] ELSE R0, e30)
(* the observation is y' - b - sigma W' for every value of the coefficients *)
ObsIsField == LET o == ObsMarg(c.b, c.sg, c.d, c.delta) x == g.m t == RMul(RInt(k), h)
                  y == Sel(x, 4, 0) w == Sel(x, 4, 2) a == Sel(x, 4, 3)
                  u == RDiv(t, c.delta)
                  dW == [i \in 1..c.d |-> RAdd(RDiv(w[i], c.delta),
                           RMul(RDiv(Rt6, c.delta), RMul(a[i], RSub(R1, RMul(R2, u)))))]
              IN  VNear(FEval(o, x, t), VSub(Sel(x, 4, 1), VAdd(FEval(c.b, y, t), MVec(MFEval(c.sg, y, t), dW))), e30)
=============================================================================
