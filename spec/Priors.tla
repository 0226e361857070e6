------------------------------- MODULE Priors -------------------------------
(***************************************************************************)
(* Discretisation of linear SDEs  dX = (F X + u) dt + L dW  over a step h:  *)
(* X(h) = A X(0) + xi + N(0, Q), and the priors built from them.            *)
(***************************************************************************)
EXTENDS OdeFilter

(* square blocks of a matrix *)
Block(M, r0, r, c0, cc) == TLCEval([i \in 1..r |-> SubSeq(M[r0 + i], c0 + 1, c0 + cc)])
(* [A xi; 0 1] = exp([F u; 0 0] h) *)
LtiXi(F, u, h) ==
    LET n == Len(F)
    IN  Bind(MExp(TLCEval([i \in 1..(n + 1) |-> IF i <= n THEN VScale(h, Append(F[i], u[i])) ELSE VZero(n + 1)])),
             LAMBDA E : TLCEval([i \in 1..n |-> E[i][n + 1]]))
(* Van Loan: exp([-F LL'; 0 F'] h) = [. X; 0 A'],  Q = A X *)
LtiQ(F, L, h) ==
    LET n == Len(F)
        M(G, T) == TLCEval([i \in 1..(2 * n) |-> VScale(h,
                     IF i <= n THEN VNeg(F[i]) \o G[i] ELSE VZero(n) \o T[i - n])])
    IN  Bind(MExp(M(MGram(L), MTr(F))), LAMBDA E :
             MRound(MMul(MTr(Block(E, n, n, n, n)), Block(E, 0, n, n, n))))
Lti(F0, u0, L0, h) ==
    Bind(<<F0, u0, L0>>, LAMBDA a :
         [A |-> MExp(MScale(h, a[1])), xi |-> LtiXi(a[1], a[2], h), Q |-> LtiQ(a[1], a[3], h)])
Copies(p0, d) == Bind(p0, LAMBDA p :
    [A |-> Repeat(p.A, d), Q |-> Repeat(p.Q, d),
     xi |-> TLCEval([k \in 1..(d * Len(p.xi)) |-> p.xi[((k - 1) % Len(p.xi)) + 1]])])

(* q times integrated Ornstein-Uhlenbeck process *)
IouF(q, theta) == TLCEval([i \in 1..(q + 1) |-> [j \in 1..(q + 1) |->
                     IF j = i + 1 THEN R1 ELSE IF i = q + 1 /\ j = i THEN RNeg(theta) ELSE R0]])
Ioup(theta, sigma, q, h, d) ==
    Copies([A |-> MExp(MScale(h, IouF(q, theta))), Q |-> MScale(RSq(sigma), IbmQ(q, h)), xi |-> VZero(q + 1)], d)

(* Matern of smoothness k + 1/2: companion matrix of (x + lambda)^(k+1) *)
Lambda(k, length) == RDiv(Root(RInt(2 * k + 1)), length)
MaternF(k, lam) == TLCEval([i \in 1..(k + 1) |-> [j \in 1..(k + 1) |->
                     IF i <= k THEN (IF j = i + 1 THEN R1 ELSE R0)
                     ELSE RNeg(RMul(RInt(Binom(k + 1, j - 1)), RPow(lam, k + 2 - j)))]])
MaternL(k, mag) == TLCEval([i \in 1..(k + 1) |-> IF i = k + 1 THEN <<mag>> ELSE <<R0>>])
Matern(k, mag, length, h, d) ==
    Copies(Lti(MaternF(k, Lambda(k, length)), VZero(k + 1), MaternL(k, mag), h), d)

(* ----------------------------- composition ----------------------------- *)
Pad(p, q) == LET z == q + 1 - Len(p.xi)
                 e(M) == TLCEval([i \in 1..(q + 1) |-> IF i <= Len(M) THEN M[i] \o VZero(z) ELSE VZero(q + 1)])
             IN  [A |-> e(p.A), Q |-> e(p.Q), xi |-> p.xi \o VZero(z)]
RECURSIVE Product(_)
Product(ps) == IF Len(ps) = 1 THEN ps[1]
               ELSE LET r == Product(Tail(ps)) p == Head(ps)
                    IN  [A |-> BlockDiag2(p.A, r.A), Q |-> BlockDiag2(p.Q, r.Q), xi |-> p.xi \o r.xi]
(* first p, then r *)
Then(p, r) == [A |-> MMul(r.A, p.A), xi |-> VAdd(MVec(r.A, p.xi), r.xi), Q |-> MAdd(MSandwich(r.A, p.Q), r.Q)]
=============================================================================
