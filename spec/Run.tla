-------------------------------- MODULE Run --------------------------------
(***************************************************************************)
(* Whole runs: the driver's steps composed with an ODE solver's.            *)
(* A run r has                                                              *)
(*   drift, sigma, delta   the SDE and the step                             *)
(*   ode   "euler", "fresh" or "mix" (Gaussian filter with a fresh prior,   *)
(*         or started from the previous posterior), "marg" (marginalised    *)
(*         parabola coefficients)                                           *)
(*   m     inner steps, of length h (delta / m)                             *)
(*   prior, R, ekf0, n     of the filter                                    *)
(* The state between steps is x and, for "mix", the covariance P.           *)
(***************************************************************************)
EXTENDS OdeFilter, Brownian

(* the inner problem of step k + 1 (which starts at k delta) *)
StepOf(r, d, k, cc) ==
    LET tk == RMul(RInt(k), r.delta)
    IN  IF r.ode = "marg" THEN <<FShift(r.drift, d, tk), MFShift(r.sigma, d, tk)>>
        ELSE <<StepField(r.drift, r.sigma, d, tk, r.delta, "parabola", cc)>>
Inner(r, d, f) ==
    CASE r.ode = "euler" -> [f |-> f[1]]
      [] r.ode \in {"fresh", "mix"} -> Ivp(f[1], d, r.n, r.prior, r.R, r.ekf0)
      [] r.ode = "marg" -> Marg(f[1], f[2], d, r.delta, r.prior, r.R, r.ekf0)
Start(r, d, f, x, P) ==
    CASE r.ode = "euler" -> [m |-> x, P |-> <<>>]
      [] r.ode = "fresh" -> InitFresh(f[1], x, r.n)
      [] r.ode = "mix" -> InitMixture(f[1], x, P, r.ekf0)
      [] r.ode = "marg" -> InitMarg(f[1], f[2], x, r.delta)
(* inner step j + 1; a filter step to local time (j + 1) h *)
InnerStep(r, pr, g, j) ==
    IF r.ode = "euler"
    THEN [m |-> VRound(VAdd(g.m, VScale(r.h, FEval(pr.f, g.m, RMul(RInt(j), r.h))))), P |-> <<>>, ok |-> TRUE]
    ELSE FilterStep(g, pr, RMul(RInt(j + 1), r.h), R1)
Width(r) == CASE r.ode = "euler" -> 1 [] r.ode = "fresh" -> r.n [] r.ode = "mix" -> 2 [] r.ode = "marg" -> 4
OutX(r, g) == Sel(g.m, Width(r), 0)
OutP(r, g) == IF r.ode = "euler" THEN <<>> ELSE SelM(g.P, Width(r), 0)
=============================================================================
