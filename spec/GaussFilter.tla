----------------------------- MODULE GaussFilter -----------------------------
(***************************************************************************)
(* Gaussian filtering.  A law is [m |-> mean, P |-> covariance].            *)
(***************************************************************************)
EXTENDS Poly

Predict(g, A, Q, xi) == [m |-> VAdd(MVec(A, g.m), xi), P |-> MAdd(MSandwich(A, g.P), Q)]

(* Conditioning on  c + Hm (x - m) + noise(R) = 0, where c is the value of   *)
(* the observation function at the mean m.  z = c is the innovation, S its   *)
(* covariance.  ok is FALSE when S is singular.                              *)
Update(g, c, Hm, R) ==
    Bind(MMulT(g.P, Hm), LAMBDA PHt :
    Bind(MAdd(MMul(Hm, PHt), R), LAMBDA S :
    Bind(MSolve(S, MTr(PHt)), LAMBDA Kt :                        \* K^T
        IF Kt = <<>> THEN [m |-> g.m, P |-> g.P, S |-> S, z |-> c, ok |-> FALSE]
        ELSE [m |-> VSub(g.m, MVec(MTr(Kt), c)),
              P |-> MSub(g.P, MMul(PHt, Kt)), S |-> S, z |-> c, ok |-> TRUE])))

(* The observation function is a polynomial field in the state and the time; *)
(* mask is the set of state variables it is not linearised in.               *)
LinAt(obsJac, mask, x, t) ==
    TLCEval([i \in 1..Len(obsJac) |-> [j \in 1..Len(x) |->
        IF j \in mask THEN R0 ELSE PEval(obsJac[i][j], x, t)]])
(* u scales the observation of the step (1 unless the parameters say so)     *)
FilterStep(g, pr, t, u) ==
    Bind(Predict(g, pr.A, pr.Q, pr.xi), LAMBDA p :
    Bind(Update(p, VScale(u, FEval(pr.obs, p.m, t)), MScale(u, LinAt(pr.jac, pr.mask, p.m, t)), pr.R), LAMBDA r :
        [m |-> VRound(r.m), P |-> MRound(r.P), S |-> r.S, z |-> r.z, ok |-> r.ok]))

(* ------------------------- joint conditioning -------------------------- *)
(* The law of the first n coordinates of a Gaussian given that the others    *)
(* are zero.                                                                 *)
Condition(g, n) ==
    LET N == Len(g.m)
        a == SubSeq(g.m, 1, n) b == SubSeq(g.m, n + 1, N)
        Paa == TLCEval([i \in 1..n |-> SubSeq(g.P[i], 1, n)])
        Pab == TLCEval([i \in 1..n |-> SubSeq(g.P[i], n + 1, N)])
        Pbb == TLCEval([i \in 1..(N - n) |-> SubSeq(g.P[n + i], n + 1, N)])
        Kt == MSolve(Pbb, MTr(Pab))
    IN  IF N = n THEN [m |-> a, P |-> Paa]
        ELSE [m |-> VSub(a, MVec(MTr(Kt), b)), P |-> MSub(Paa, MMul(Pab, Kt))]
(* image of a Gaussian under x -> M x + v, plus independent noise            *)
Image(g, M, v, Q) == [m |-> VAdd(MVec(M, g.m), v), P |-> MAdd(MSandwich(M, g.P), Q)]
=============================================================================
