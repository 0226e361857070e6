------------------------------ MODULE T_Priors ------------------------------
(***************************************************************************)
(* Recorded priors.  A trace is a few calls on one prior:                   *)
(*   Ioup, Lti, Matern   the transition returned for the header's arguments *)
(*   Compose             the transitions for a step h and for 2 h           *)
(*   Pad, Product        combinations of given transitions                  *)
(***************************************************************************)
EXTENDS Priors, TraceBase

(* an entry of a covariance, on the scale of its own row and column *)
NearQ(M, X, tol) == \A i \in 1..Len(X) : \A j \in 1..Len(X) :
    /\ Finite(M[i][j])
    /\ RLe(RSq(RSub(M[i][j], X[i][j])), RAdd(RMul(RSq(tol), RMul(X[i][i], X[j][j])), RPow(RQ(1, 10000), 6)))
NearM(M, X, tol) == MNearRel(M, X, tol)

Clauses(o, p, qtol) ==
    LET n == Len(p.xi) IN
    IF ~(IsVec(o.xi, n) /\ IsMat(o.A, n, n) /\ IsMat(o.Q, n, n)) THEN {"Shape"}
    ELSE Chk("Increment", VNear(o.xi, p.xi, Tol)) \cup Chk("Transition", NearM(o.A, p.A, Tol))
         \cup Chk("Covariance", NearQ(o.Q, p.Q, qtol))

Exact == CASE H.fam = "ioup" -> Ioup(H.theta, H.sigma, H.q, H.h, H.d)
           [] H.fam = "lti" -> Lti(H.F, H.u, H.L, H.h)
           [] H.fam = "matern" -> Matern(H.k, H.mag, H.len, H.h, H.d)
Value == /\ Is("Value") /\ Consume(Bind(Exact, LAMBDA p : Clauses(Ev.p, p, H.qtol)), s)

Compose == /\ Is("Compose")
           /\ Consume(Bind(Then(Ev.one, Ev.one), LAMBDA p :
                  Chk("Compose", NearM(Ev.two.A, p.A, Tol) /\ NearQ(Ev.two.Q, p.Q, H.qtol)
                                 /\ VNear(Ev.two.xi, p.xi, Tol))), s)
PadEv == Is("Pad") /\ Consume(Chk("Pad", Ev.out = Pad(Ev.p, Ev.q)), s)
ProductEv == Is("Product") /\ Consume(Chk("Product", Ev.out = Product(Ev.ps)), s)

Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = 0 /\ bad = {}
Next == l <= Len(T.ev) /\ (Value \/ Compose \/ PadEv \/ ProductEv \/ Raised)
Spec == Init /\ [][Next]_tvars
=============================================================================
