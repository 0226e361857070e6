------------------------------ MODULE MC_Priors ------------------------------
(* Steps of a discretised linear SDE composed: the k-step transition must be *)
(* the transition of a step k times as long.                                *)
EXTENDS Priors
VARIABLES pr, k, acc
vars == <<pr, k, acc>>
I(n) == RInt(n)
Mx(M) == TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> RInt(M[i][j])]])
Vx(v) == TLCEval([i \in 1..Len(v) |-> RInt(v[i])])
Hs == {RHalf, R1, RQ(1, 10)}
Prs == [kind : {"ibm"}, q : 0..3, h : Hs]
  \cup [kind : {"lti"}, F : {Mx(<<<<0, 1>>, <<-2, -1>>>>), Mx(<<<<0, 1>>, <<0, 0>>>>), Mx(<<<<1, -1>>, <<2, 0>>>>)},
        u : {Vx(<<0, 0>>), Vx(<<1, -2>>)}, L : {Mx(<<<<0>>, <<1>>>>), Mx(<<<<1, 2>>, <<0, 1>>>>)}, h : Hs]
  \cup [kind : {"matern"}, k : 0..3, mag : {R2}, len : {R1, R2}, h : Hs]
One(h) == CASE pr.kind = "ibm" -> Ibm(pr.q, h, 1)
            [] pr.kind = "lti" -> Lti(pr.F, pr.u, pr.L, h)
            [] pr.kind = "matern" -> Matern(pr.k, pr.mag, pr.len, h, 1)
Init == pr \in Prs /\ k = 1 /\ acc = One(pr.h)
Next == k < 3 /\ k' = k + 1 /\ pr' = pr
        /\ acc' = Bind(Then(acc, Bind(One(pr.h), LAMBDA p : p)), LAMBDA a : [A |-> MRound(a.A), xi |-> VRound(a.xi), Q |-> MRound(a.Q)])
Spec == Init /\ [][Next]_vars
e20 == RPow(RQ(1, 10000), 5)
Same(a0, b0) == Bind(<<a0, b0>>, LAMBDA ab : LET a == ab[1] b == ab[2] IN
    MNear(a.A, b.A, e20) /\ MNear(a.Q, b.Q, e20) /\ VNear(a.xi, b.xi, e20))
Semigroup == Same(acc, One(RMul(I(k), pr.h)))
PsdQ == IsPsd(MAdd(acc.Q, MScale(e20, MId(Len(acc.Q)))))
(* the integrated Brownian motion is a linear SDE *)
IbmIsLti == pr.kind = "ibm" =>
    Same(One(pr.h), Lti(IouF(pr.q, R0), VZero(pr.q + 1), MaternL(pr.q, R1), pr.h))
(* and the integrated OU process without mean reversion is it *)
OuIsIbm == pr.kind = "ibm" => Same(Ioup(R0, R2, pr.q, pr.h, 1), [One(pr.h) EXCEPT !.Q = MScale(I(4), @)])
(* closed form for smoothness 3/2 *)
Closed == (pr.kind = "matern" /\ pr.k = 1) =>
    LET l == Lambda(1, pr.len) h == pr.h x == RMul(l, h) e == RExp(RNeg(x)) e2 == RSq(e)
        A == <<<<RMul(e, RAdd(R1, x)), RMul(e, h)>>, <<RNeg(RMul(RMul(e, h), RSq(l))), RMul(e, RSub(R1, x))>>>>
        q11 == RDiv(RSub(R1, RMul(e2, RAdd(R1, RAdd(RMul(R2, x), RMul(R2, RSq(x)))))), RMul(I(4), RPow(l, 3)))
        q12 == RMul(RHalf, RMul(RSq(h), e2))
        q22 == RDiv(RSub(R1, RMul(e2, RAdd(RSub(R1, RMul(R2, x)), RMul(R2, RSq(x))))), RMul(I(4), l))
    IN  Same(One(pr.h), [A |-> A, xi |-> VZero(2), Q |-> MScale(RSq(pr.mag), <<<<q11, q12>>, <<q12, q22>>>>)])
(* (F + lambda)^(k+1) = 0: the process has one time scale *)
OneScale == pr.kind = "matern" =>
    LET F == MaternF(pr.k, Lambda(pr.k, pr.len))
        N == MAdd(F, MScale(Lambda(pr.k, pr.len), MId(Len(F))))
        RECURSIVE Pw(_) Pw(j) == IF j = 0 THEN MId(Len(F)) ELSE MMul(N, Pw(j - 1))
    IN  MNear(Pw(pr.k + 1), MZero(Len(F), Len(F)), e20)
Padding == Bind(One(pr.h), LAMBDA p : Bind(Pad(p, Len(p.xi) + 1), LAMBDA z :
           LET n == Len(p.xi)
           IN  /\ Block(z.A, 0, n, 0, n) = p.A /\ Block(z.Q, 0, n, 0, n) = p.Q /\ SubSeq(z.xi, 1, n) = p.xi
               /\ \A i \in 1..(n + 2) : \A j \in 1..(n + 2) : (i > n \/ j > n) => z.A[i][j] = R0 /\ z.Q[i][j] = R0
               /\ Copies(p, 2) = Product(<<p, p>>)))
=============================================================================
