---------------------------- MODULE T_Benchmarks ----------------------------
(***************************************************************************)
(* Recorded benchmark problems.  The header has polynomials b and a in the *)
(* deviation from the initial state; Field events bind them to the drift   *)
(* and diffusion the problem returns, the others judge its moments.        *)
(*   Mean, Cov   a reference moment at time t; orders: the order in t of    *)
(*               the expansion it claims to be (Full: the moment itself)   *)
(*   Variant     drift and diffusion of a problem and its square variant   *)
(*   Linear      the random linear problem at a point                      *)
(*   Law         empirical moments of its matrices over keys               *)
(***************************************************************************)
EXTENDS Benchmarks, Law, TraceBase
Full == 99
Terms(o) == IF o = Full THEN 45 ELSE o
D == Len(H.x0)
Field == /\ Is("Field")
         /\ LET y == VSub(Ev.x, H.x0)
            IN  Consume(Chk("Drift", VNear(Ev.b, FEval(H.b, y, R0), Tol))
                        \cup Chk("Diffusion", MNear(MGram(Ev.sg), MFEval(H.av, y, R0), Tol)), s)
Start == Is("Start") /\ Consume(Chk("Init", VNear(Ev.x0, H.x0, R0)), s)
Mean == /\ Is("Mean")
        /\ Consume(Chk("MeanShape", IsVec(Ev.v, D))
             \cup (IF IsVec(Ev.v, D) THEN Chk("Mean", \A i \in 1..D :
                       Near(Ev.v[i], RAdd(H.x0[i], Ser(MeanC(H.b, H.av, i, Terms(Ev.order)), Ev.t)), Ev.tol))
                   ELSE {}), s)
Scale(M, i, j) == RSqrt(RMul(RAbs(M[i][i]), RAbs(M[j][j])), 10)
(* the requested block of the covariance, on the scale of its coordinates *)
CovExact(t, orders) == TLCEval([i \in 1..Len(orders) |-> [j \in 1..Len(orders) |->
                          IF j < i THEN R0 ELSE Ser(CovC(H.b, H.av, i, j, Terms(orders[i][j])), t)]])
Cov == /\ Is("Cov")
       /\ LET n == Len(Ev.orders)
          IN  Consume(IF ~IsMat(Ev.V, n, n) THEN {"CovShape"}
                      ELSE Bind(CovExact(Ev.t, Ev.orders), LAMBDA M :
                           Chk("Covariance", \A i \in 1..n : \A j \in 1..n :
                               LET x == IF i <= j THEN M[i][j] ELSE M[j][i]
                               IN  NearS(Ev.V[i][j], x, Ev.tol, RAdd(Scale(M, i, j), RPow(RQ(1, 10000), 4))))), s)
Variant == /\ Is("Variant")
           /\ Consume(Chk("VariantDrift", VNear(Ev.b1, Ev.b0, Tol))
                      \cup Chk("VariantSquare", IsMat(Ev.sg1, Len(Ev.b0), Len(Ev.b0)))
                      \cup Chk("VariantInit", VNear(Ev.x1, Ev.x0, R0))
                      \cup Chk("VariantMoments", VNear(Ev.m1, Ev.m0, Tol) /\ MNear(Ev.V1, Ev.V0, Tol))
                      \cup Chk("VariantDiffusion", MNear(MGram(Ev.sg1), MGram(Ev.sg0), Tol)), s)
(* M and S: the matrices of the same key without scales *)
Linear == /\ Is("Linear")
          /\ Consume(Chk("LinearDrift", VNear(Ev.b, MVec(Ev.std1, MVec(Ev.M, Ev.x)), Tol))
                     \cup Chk("LinearDiffusion", MNear(Ev.sg, MMul(Ev.std2, Ev.S), Tol))
                     \cup Chk("LinearInit", VNear(Ev.x0, VOnes(Len(Ev.x)), R0)), s)
LawEv == /\ Is("Law") /\ Consume(LawClauses(Ev, VZero(H.m), MId(H.m)), s)
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = 0 /\ bad = {}
Next == l <= Len(T.ev) /\ (Field \/ Start \/ Mean \/ Cov \/ Variant \/ Linear \/ LawEv \/ Raised)
Spec == Init /\ [][Next]_tvars
=============================================================================
