----------------------------- MODULE T_SdeDriver -----------------------------
(***************************************************************************)
(* Recorded runs of the SDE drivers against SdeDriver's actions.           *)
(* A trace is one call.  Its events: Start (times and first state), then   *)
(* one Step per recorded step.  The integrator handed to the driver in     *)
(* these runs returns, as parts of its state, what it was given: horizon,  *)
(* keys, and values of the vector field at recorded points.                *)
(* h.want selects the clauses: C01 grid and chaining, C02 vector field,    *)
(* C03 keys.                                                               *)
(***************************************************************************)
EXTENDS Brownian, TraceBase

D == Len(H.x0)
Time(i) == RMul(RInt(i), H.delta)

(* -------------------------------- Start -------------------------------- *)
StartClauses ==
    IF H.want # "C01" THEN {}
    ELSE Chk("TimesLen", Len(Ev.ts) = H.n + 1)
         \cup Chk("Times", Len(Ev.ts) = H.n + 1 => \A i \in 1..(H.n + 1) : NearS(Ev.ts[i], Time(i - 1), Tol, Time(H.n)))
         \cup Chk("TrajLen", \A i \in 1..Len(Ev.lens) : Ev.lens[i] = H.n + 1)
         \cup Chk("CoefsLen", \A i \in 1..Len(Ev.clens) : Ev.clens[i] = H.n)
         \cup Chk("Init", Ev.first = H.x0 /\ Ev.firsts = H.inits)
         \cup Chk("Steps", Len(T.ev) = H.n + 1)
Start == Is("Start") /\ Consume(StartClauses, [k |-> 0, x |-> H.x0, cnt |-> H.cnt0, used |-> {}, kids |-> {}])

(* -------------------------------- Step --------------------------------- *)
(* chaining, from the observed values of the vector field only: the state  *)
(* recorded is the image of the state recorded before it                   *)
ChainClauses ==
    Chk("Horizon", NearS(Ev.T, H.delta, Tol, H.delta))
    \cup (IF H.bm THEN Chk("BmHorizon", NearS(Ev.bmdt, H.delta, Tol, H.delta)) ELSE {})
    \cup Chk("Counter", Ev.cnt = s.cnt + 1)
    \cup Chk("Chain", VNear(Ev.x, VAdd(s.x, VScale(Ev.T, Ev.v0)), Tol))
    \cup Chk("NotFinite", VFinite(Ev.x))

(* the vector field given to the integrator is that of the random ODE of   *)
(* this step: absolute time in drift and diffusion, and the coefficients   *)
(* the driver reports for this step                                        *)
(* and so are its derivatives, which the solvers take: equal fields have them equal *)
Last == Ev.probes[Len(Ev.probes)]
Derivs(F) == Chk("FieldJacobian", MNear(Ev.J, JacEval(F, Last.z, Last.t), Tol))
             \cup Chk("FieldTimeDerivative", VNear(Ev.Jt, DtEval(F, Last.z, Last.t), Tol))
FieldClauses ==
    IF H.driver = "rode"
    THEN LET F == StepField(H.drift, H.sigma, D, Time(s.k), H.delta, H.bmk, Ev.c)
         IN  Chk("Field", \A i \in 1..Len(Ev.probes) :
                    LET p == Ev.probes[i] IN VNear(p.v, FEval(F, p.z, p.t), Tol))
             \cup Chk("FieldAtState", VNear(Ev.v0, FEval(F, s.x, RMul(RHalf, Ev.T)), Tol))
             \cup Derivs(F)
    ELSE \* the marginalised driver hands over the shifted drift and diffusion
         LET dr == FShift(H.drift, D, Time(s.k))
             sg == MFShift(H.sigma, D, Time(s.k))
         IN  Chk("Drift", \A i \in 1..Len(Ev.probes) :
                    LET p == Ev.probes[i] IN VNear(p.v, FEval(dr, p.z, p.t), Tol))
             \cup Chk("Diffusion", \A i \in 1..Len(Ev.probes) :
                    LET p == Ev.probes[i] IN MNear(p.sg, MFEval(sg, p.z, p.t), Tol))
             \cup Derivs(dr)
             \cup Chk("DiffusionJacobian", \A i \in 1..D : MNear(Ev.SJ[i], JacEval(sg[i], Last.z, Last.t), Tol))

KeyClauses ==
    Chk("KeyReused", \A i \in 1..Len(Ev.keys) : Ev.keys[i] \notin s.used)
    \cup Chk("KeysEqual", \A i, m \in 1..Len(Ev.keys) : i # m => Ev.keys[i] # Ev.keys[m])
    \cup Chk("RootKey", \A i \in 1..Len(Ev.keys) : Ev.keys[i] # H.key)
    \* a consumer may split its key: nobody else is given one of the children
    \cup Chk("ChildReused", \A i \in 1..Len(Ev.keys) :
                /\ Ev.keys[i] \notin s.kids
                /\ \A m \in 1..Len(Ev.kids) : \A c \in 1..Len(Ev.kids[m]) :
                       Ev.kids[m][c] # Ev.keys[i] /\ Ev.kids[m][c] \notin s.used)

StepClauses == CASE H.want = "C01" -> ChainClauses
                 [] H.want = "C02" -> FieldClauses
                 [] H.want = "C03" -> KeyClauses

Step == /\ Is("Step")
        /\ Consume(StepClauses, [k |-> s.k + 1, x |-> Ev.x, cnt |-> Ev.cnt,
                                 used |-> s.used \cup {Ev.keys[i] : i \in 1..Len(Ev.keys)},
                                 kids |-> s.kids \cup UNION {{Ev.kids[i][c] : c \in 1..Len(Ev.kids[i])} : i \in 1..Len(Ev.kids)}])

(* ----------------- whole runs that must coincide (C03) ------------------ *)
(* the same call repeated, compiled or batched gives the same numbers; a   *)
(* different key gives different numbers                                   *)
Same == /\ Is("Same") /\ Consume(Chk("NotReproducible", VNear(Ev.u, Ev.v, Tol)), s)
Differ == /\ Is("Differ") /\ Consume(Chk("KeyIgnored", \E i \in 1..Len(Ev.u) : Ev.u[i] # Ev.v[i]), s)

(* the noise of a run, one vector per step: no component occurs twice, at  *)
(* the same or at different steps (up to sign). In long runs two numbers   *)
(* may come close by chance: there a whole vector must not occur twice     *)
Noise0 == Is("Noise0") /\ Consume({}, [seen |-> {}])
AbsOf(u) == [i \in 1..Len(u) |-> RAbs(u[i])]
Apart(u) == IF H.whole THEN \A v \in s.seen : \E i \in 1..Len(u) : ~Near(u[i], v[i], Tol)
            ELSE \A i \in 1..Len(u) : /\ \A v \in s.seen : \A m \in 1..Len(v) : ~Near(u[i], v[m], Tol)
                                       /\ \A j \in 1..Len(u) : i # j => ~Near(u[i], u[j], Tol)
Noise == /\ Is("Noise")
         /\ Consume(IF ~VFinite(Ev.u) THEN {"NotFinite"} ELSE Chk("NoiseReused", Bind(AbsOf(Ev.u), Apart)),
                    [seen |-> s.seen \cup (IF VFinite(Ev.u) THEN {AbsOf(Ev.u)} ELSE {})])

Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = [k |-> 0] /\ bad = {}
Next == l <= Len(T.ev) /\ (Start \/ Step \/ Same \/ Differ \/ Noise0 \/ Noise \/ Raised)
Spec == Init /\ [][Next]_tvars
=============================================================================
