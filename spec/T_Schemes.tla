------------------------------ MODULE T_Schemes ------------------------------
(***************************************************************************)
(* Recorded runs of the time stepping schemes.  A trace is one call.       *)
(*   Start   times and the first recorded state                            *)
(*   Step    one step: the noise of the step (given, or observed in a      *)
(*           calibration run with the same key) and the state after it     *)
(*   Return  end of a run of the Euler ODE solver, whose steps are silent  *)
(*   Law     empirical moments of the noise                                *)
(*   Resid   a state whose predecessor is known but not its noise: the     *)
(*           whitened residual is accumulated; Sum closes it               *)
(***************************************************************************)
EXTENDS Schemes, Law, TraceBase

D == Len(H.x0)
Time(k) == RMul(RInt(k), H.h)

StartClauses ==
    Chk("TimesLen", Len(Ev.ts) = H.n + 1)
    \cup Chk("Times", Len(Ev.ts) = H.n + 1 => \A i \in 1..(H.n + 1) : NearS(Ev.ts[i], Time(i - 1), Tol, Time(H.n)))
    \cup Chk("TrajLen", Ev.len = H.n + 1)
    \cup Chk("Init", VNear(Ev.first, H.x0, R0))
Start == Is("Start") /\ Consume(StartClauses, [k |-> 0, x |-> H.x0, z |-> R0, n |-> 0])

(* the state the scheme prescribes after the step *)
Expected ==
    CASE H.scheme = "em" ->
            EmStep(H.b, H.sg, s.x, Time(s.k), H.h, IF H.standard THEN VScale(Root(H.h), Ev.dW) ELSE Ev.dW)
      [] H.scheme = "diag15" -> Diag15Step(H.b, H.sg, s.x, H.h, Ev.dW, Ev.dZ)
      [] H.scheme = "hypo" -> VAdd(HypoMean(H.b, H.sg, s.x, H.h), Ev.eps)
Step == /\ Is("Step")
        /\ Consume(Chk("Step", VNear(Ev.x, Expected, Tol)), [s EXCEPT !.k = @ + 1, !.x = Ev.x])

(* the increments handed to the pathwise solver are not its to change *)
Untouched == Is("Untouched") /\ Consume(Chk("InputModified", Ev.before = Ev.after), s)
(* a second, identical call *)
Again == Is("Again") /\ Consume(Chk("NotRepeatable", MNear(Ev.u, Ev.v, Tol)), s)

LawCov == CASE H.scheme = "em" -> MScale(H.h, MId(H.m))
            [] H.scheme = "diag15" -> Diag15Cov(H.m, H.h)
            [] H.scheme = "hypo" -> HypoCov(H.b, H.sg, H.x0, H.h)
LawMu == IF H.scheme = "hypo" THEN HypoMean(H.b, H.sg, H.x0, H.h) ELSE VZero(Len(LawCov))
(* reps > 1: the joint law of the noise of several steps *)
RECURSIVE Repeat(_, _)
Repeat(M, r) == IF r = 1 THEN M ELSE BlockDiag2(M, Repeat(M, r - 1))
LawEv == /\ Is("Law")
         /\ Consume(LawClauses(Ev, IF Ev.reps = 1 THEN LawMu ELSE VZero(Ev.reps * Len(LawCov)), Repeat(LawCov, Ev.reps)), s)

(* whitened residuals of a run with state dependent covariance *)
Resid == /\ Is("Resid")
         /\ LET C == HypoCov(H.b, H.sg, s.x, H.h)
                r == VSub(Ev.x, HypoMean(H.b, H.sg, s.x, H.h))
                w == VSolve(C, r)
            IN  Consume(Chk("NotFinite", VFinite(Ev.x)),
                        [s EXCEPT !.k = @ + 1, !.x = Ev.x, !.z = Round(RAdd(@, RDot(r, w))), !.n = @ + 1])
(* chi-square with n d degrees of freedom *)
Sum == /\ Is("Sum")
       /\ Consume(Chk("Covariance", Within(RSub(s.z, RInt(s.n * D)), RInt(2 * s.n * D), 1, Zmax)), s)

(* Euler ODE solver: N silent steps from time 0, then the returned value *)
EulerInner == /\ Is("Return") /\ s.k < H.n
              /\ Silent([s EXCEPT !.k = @ + 1, !.x = VRound(EulerStep(H.b, s.x, Time(s.k), H.h))])
EulerReturn == /\ Is("Return") /\ s.k = H.n
               /\ Consume(Chk("Return", VNear(Ev.x, s.x, Tol)), s)
(* the run split after a steps, the rest with the time shifted *)
Split == /\ Is("Split") /\ Consume(Chk("Split", VNear(Ev.x, s.x, Tol)), s)

Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = [k |-> 0, x |-> H.x0, z |-> R0, n |-> 0] /\ bad = {}
Next == l <= Len(T.ev) /\ (Start \/ Step \/ Untouched \/ Again \/ LawEv \/ Resid \/ Sum
                           \/ EulerInner \/ EulerReturn \/ Split \/ Raised)
Spec == Init /\ [][Next]_tvars
=============================================================================
