-------------------------------- MODULE T_Run --------------------------------
(***************************************************************************)
(* Recorded whole runs of the SDE drivers with the solvers of the           *)
(* repository.  Start, then one Step per recorded state; the inner steps    *)
(* are silent.  In runs without sampling the state after a step is the      *)
(* exact result; in runs with sampling (H.keyed) the whitened deviation     *)
(* from it is accumulated, and Sum closes it.                               *)
(***************************************************************************)
EXTENDS Run, Law, TraceBase

D == Len(H.x0)
R == [drift |-> H.drift, sigma |-> H.sigma, delta |-> H.delta, ode |-> H.ode, m |-> H.M, h |-> H.h, n |-> H.n,
      prior |-> IF H.prior = "ibm" THEN Ibm(H.n - 1, H.h, IF H.ode = "marg" THEN 1 ELSE D)
                ELSE [A |-> H.A, Q |-> H.Q, xi |-> H.xi],
      R |-> H.R, ekf0 |-> H.ekf0]

StartEv == /\ Is("Start")
           /\ Consume(Chk("TimesLen", Len(Ev.ts) = H.N + 1)
                      \cup Chk("Times", Len(Ev.ts) = H.N + 1 =>
                               \A i \in 1..(H.N + 1) : NearS(Ev.ts[i], RMul(RInt(i - 1), H.delta), Tol, RMul(RInt(H.N), H.delta)))
                      \cup Chk("TrajLen", Ev.len = H.N + 1)
                      \cup Chk("Init", VNear(Ev.x, H.x0, R0) /\ (H.ode = "mix" => MNear(Ev.P, H.P0, R0))),
                      [ph |-> "idle", k |-> 0, x |-> H.x0, m |-> H.x0, P |-> H.P0, z |-> R0, n |-> 0])
Cc == IF H.ode = "marg" THEN <<>> ELSE Ev.c
Load == /\ Is("Step") /\ s.ph = "idle"
        /\ LET f == StepOf(R, D, s.k, Cc)
           IN  Silent([s EXCEPT !.ph = "ode"] @@ [j |-> 0, pr |-> Inner(R, D, f), g |-> Start(R, D, f, s.m, s.P), ok |-> TRUE])
Ode == /\ Is("Step") /\ s.ph = "ode" /\ s.j < H.M /\ s.ok
       /\ LET q == InnerStep(R, s.pr, s.g, s.j)
          IN  Silent([s EXCEPT !.j = @ + 1, !.g = [m |-> q.m, P |-> q.P], !.ok = q.ok])
(* a degenerate observation: nothing is required of the rest of the run *)
Undefined == Is("Step") /\ s.ph = "ode" /\ ~s.ok /\ l' = Len(T.ev) + 1 /\ UNCHANGED <<tr, s, bad>> /\ Report

XX == OutX(R, s.g)
PP == OutP(R, s.g)
MatNear(M, N) == Len(M) = Len(N) /\ \A i \in 1..Len(N) : Len(M[i]) = Len(N[i])
                 /\ \A i2 \in 1..Len(N[i]) : Near(M[i][i2], N[i][i2], Tol)
(* Additive noise without drift: the recorded increment is sigma times the reported Brownian increment,     *)
(* exactly for the filters with the default prior and no observation noise                                  *)
Additive == /\ H.ode \in {"fresh", "mix"} /\ H.prior = "ibm" /\ ~H.keyed /\ H.R = MZero(D, D)
            /\ \A i \in 1..D : H.drift[i] = <<>> /\ \A q \in 1..Len(H.sigma[i]) : \A a \in 1..Len(H.sigma[i][q]) :
                  \A v \in 1..(D + 1) : H.sigma[i][q][a].e[v] = 0
Path == Additive => VNear(Ev.m, VAdd(s.m, MVec(MFEval(H.sigma, H.x0, R0), Ev.c[1])), Tol)
Clauses ==
    IF ~(IsVec(Ev.x, D) /\ VFinite(Ev.x) /\ IsVec(Ev.m, D) /\ VFinite(Ev.m)) THEN {"NotFinite"}
    ELSE Chk("StepMean", (H.keyed /\ H.ode # "mix") \/ VNear(Ev.m, XX, Tol))
         \cup Chk("StepCovariance", H.ode = "mix" => MatNear(Ev.P, PP))
         \cup Chk("SampleIsMean", H.keyed \/ VNear(Ev.x, Ev.m, Tol))
         \cup Chk("FollowsPath", Path)
(* deviation of the sample, whitened; directions without noise are not part of these runs *)
Dev == LET r == VSub(Ev.x, IF H.ode = "mix" THEN Ev.m ELSE XX) IN RDot(r, VSolve(PP, r))
Step == /\ Is("Step") /\ s.ph = "ode" /\ s.j = H.M /\ s.ok
        /\ Consume(Clauses,
              [ph |-> "idle", k |-> s.k + 1, x |-> Ev.x, m |-> IF H.ode = "mix" THEN Ev.m ELSE Ev.x,
               P |-> IF H.ode = "mix" THEN Ev.P ELSE s.P,
               z |-> IF H.keyed THEN Round(RAdd(s.z, Dev)) ELSE s.z, n |-> s.n + 1])
(* chi-square with n d degrees of freedom *)
Sum == /\ Is("Sum") /\ Consume(Chk("Residuals", Within(RSub(s.z, RInt(s.n * D)), RInt(2 * s.n * D), 1, RInt(8))), s)

Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = [ph |-> "new"] /\ bad = {}
Next == l <= Len(T.ev) /\ (StartEv \/ (Is("Step") /\ (Load \/ Ode \/ Undefined \/ Step)) \/ Sum \/ Raised)
Spec == Init /\ [][Next]_tvars
=============================================================================
