------------------------------- MODULE MC_Run -------------------------------
(***************************************************************************)
(* Runs of one dimensional problems: every method, with the coefficients   *)
(* of each step drawn from a small set.  sib is the state of the same run  *)
(* by the fresh-prior filter.                                              *)
(***************************************************************************)
EXTENDS Run, Json
CONSTANT Steps
VARIABLES r, k, j, ph, x, P, g, cc, log, sib
vars == <<r, k, j, ph, x, P, g, cc, log, sib>>
Mo(a, ex) == [c |-> RInt(a), e |-> ex]
Drifts == {<<<<>>>>, <<<<Mo(-1, <<1, 0>>), Mo(1, <<0, 0>>)>>>>, <<<<Mo(1, <<1, 1>>), Mo(1, <<0, 1>>)>>>>,
           <<<<Mo(-1, <<2, 0>>), Mo(1, <<0, 1>>)>>>>}
Sigmas == {<<<<<<Mo(1, <<0, 0>>)>>>>>>, <<<<<<Mo(2, <<0, 0>>), Mo(-1, <<0, 1>>)>>>>>>, <<<<<<Mo(1, <<1, 0>>)>>>>>>}
Cfg == [drift : Drifts, sigma : Sigmas, ode : {"euler", "fresh", "mix", "marg"}, ekf0 : BOOLEAN, m : {1, 2},
        delta : {R1, RHalf}]
Mk(c) == LET h == RDiv(c.delta, RInt(c.m))
         IN  [drift |-> c.drift, sigma |-> c.sigma, ode |-> c.ode, ekf0 |-> c.ekf0, m |-> c.m, delta |-> c.delta,
              h |-> h, prior |-> Ibm(1, h, 1), R |-> MZero(1, 1), n |-> 2]
Coefs == {<<<<RInt(a)>>, <<RInt(b)>>>> : a \in {-1, 2}, b \in {0, 1}}
X0 == <<R1>>
Init == /\ r \in {Mk(c) : c \in {y \in Cfg : y.ode = "euler" => y.ekf0}}
        /\ k = 0 /\ j = 0 /\ ph = "draw" /\ x = X0 /\ P = MZero(1, 1) /\ g = <<>> /\ cc = <<>> /\ log = <<>> /\ sib = X0
        /\ PrintT("SCEN " \o ToJson([drift |-> r.drift, sigma |-> r.sigma, ode |-> r.ode, ekf0 |-> r.ekf0,
                                     m |-> r.m, delta |-> r.delta, x0 |-> X0]))
Draw == /\ ph = "draw" /\ k < Steps
        /\ \E c \in (IF r.ode = "marg" THEN {<<<<R0>>, <<R0>>>>} ELSE Coefs) :
             /\ cc' = c /\ g' = Start(r, 1, StepOf(r, 1, k, c), x, P)
        /\ ph' = "ode" /\ j' = 0 /\ UNCHANGED <<r, k, x, P, log, sib>>
Ode == /\ ph = "ode" /\ j < r.m
       /\ LET q == InnerStep(r, Inner(r, 1, StepOf(r, 1, k, cc)), g, j)
          IN  q.ok /\ g' = [m |-> q.m, P |-> q.P]
       /\ j' = j + 1 /\ UNCHANGED <<r, k, ph, x, P, cc, log, sib>>
Fresh == [r EXCEPT !.ode = "fresh"]
Sib(xx) == LET f == StepOf(Fresh, 1, k, cc)
           IN  OutX(Fresh, Run(Start(Fresh, 1, f, xx, P), Inner(Fresh, 1, f), r.h, r.m))
Emit == /\ ph = "ode" /\ j = r.m
        /\ x' = OutX(r, g) /\ P' = (IF r.ode = "mix" THEN OutP(r, g) ELSE P) /\ log' = Append(log, cc)
        /\ sib' = (IF r.ode = "mix" /\ r.ekf0 THEN Sib(sib) ELSE sib)
        /\ k' = k + 1 /\ ph' = "draw" /\ UNCHANGED <<r, j, g, cc>>
Next == Draw \/ Ode \/ Emit
Spec == Init /\ [][Next]_vars

e40 == RPow(RQ(1, 10000), 8)
Sg == r.sigma[1][1]
Additive == r.drift = <<<<>>>> /\ (\A i \in 1..Len(Sg) : Sg[i].e = <<0, 0>>)
S0 == MFEval(r.sigma, X0, R0)[1][1]
SumLog(i) == RSum([q \in 1..k |-> log[q][i][1]])
(* additive noise without drift: the filters follow the Brownian path exactly, Euler up to the error of the   *)
(* rectangle rule on the parabola, and marginalising leaves the mean                                          *)
FollowsPath == (Additive /\ ph = "draw") =>
    Near(x[1], RAdd(R1, RMul(S0, CASE r.ode \in {"fresh", "mix"} -> SumLog(1)
                                   [] r.ode = "euler" -> RAdd(SumLog(1), RDiv(RMul(Sqrt6, SumLog(2)), RInt(r.m)))
                                   [] r.ode = "marg" -> R0)), e40)
(* uncertainty: that of interpolating y' linearly, h^3/12 per inner step; added up by the mixture; and with   *)
(* the variance of the increment when the coefficients are marginalised                                       *)
Interp == RMul(RInt(r.m), RDiv(RPow(r.h, 3), RInt(12)))
Uncertainty == (Additive /\ ph = "draw" /\ k > 0) =>
    CASE r.ode = "fresh" -> Near(OutP(r, g)[1][1], Interp, e40)
      [] r.ode = "mix" -> Near(P[1][1], RMul(RInt(k), Interp), e40)
      [] r.ode = "marg" -> Near(OutP(r, g)[1][1], RAdd(RMul(RSq(S0), r.delta), Interp), e40)
      [] OTHER -> TRUE
(* EKF0 does not look at the uncertainty of y: its means are those with a fresh prior *)
MixMean == (ph = "draw" /\ r.ode = "mix" /\ r.ekf0) => VNear(x, sib, e40)
(* joint covariance of the marginalised filter stays that of a law *)
Laws == (g # <<>> /\ r.ode # "euler") => IsPsd(MAdd(g.P, MScale(e40, MId(Len(g.P)))))
Growing == r.ode = "mix" => RLe(R0, P[1][1])
=============================================================================
