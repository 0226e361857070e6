------------------------------- MODULE Schemes -------------------------------
(***************************************************************************)
(* One step of each time stepping scheme, for polynomial coefficients.     *)
(***************************************************************************)
EXTENDS Poly

(* explicit Euler for y' = f(y, t) *)
EulerStep(f, y, t, h) == VAdd(y, VScale(h, FEval(f, y, t)))

(* Euler-Maruyama, given the Brownian increment *)
EmStep(b, sg, x, t, h, dW) == VAdd(VAdd(x, VScale(h, FEval(b, x, t))), MVec(MFEval(sg, x, t), dW))

(* tr(S Hess f_i) for every component *)
LapW(f, S, x, t) == TLCEval([i \in 1..Len(f) |-> Frob(S, HessEval(f[i], x, t))])

(* Strong Ito-Taylor scheme of order 1.5 for diagonal diffusions sigma_i    *)
(* depending on x_i only, drift b (Kloeden, Platen 10.4; Samson, Ditlevsen).*)
(* L0 and L1 are the operators of the Ito-Taylor expansion; dW and dZ the   *)
(* increment of Brownian motion and its time integral over the step.        *)
Diag15Step(b, sg, x, h, dW, dZ) ==
    LET d   == Len(x)
        bx  == FEval(b, x, R0)
        Jb  == JacEval(b, x, R0)
        S   == MFEval(sg, x, R0)
        s   == [i \in 1..d |-> S[i][i]]
        ds  == [i \in 1..d |-> PEval(PD(sg[i][i], i), x, R0)]          \* sigma_i'
        dds == [i \in 1..d |-> PEval(PD(PD(sg[i][i], i), i), x, R0)]   \* sigma_i''
        hh  == RMul(RHalf, RSq(h))
        \* L0 b = Jb b + 1/2 tr(S S^T Hess b)
        L0b == VAdd(MVec(Jb, bx), VScale(RHalf, LapW(b, MGram(S), x, R0)))
        Comp(i) ==
            LET L1bz == RSum([j \in 1..d |-> RMul(RMul(Jb[i][j], s[j]), dZ[j])])      \* L^j b_i dZ_j
                L1s  == RMul(s[i], ds[i])
                L0s  == RAdd(RMul(bx[i], ds[i]), RMul(RHalf, RMul(RSq(s[i]), dds[i])))
                L1L1 == RMul(s[i], RAdd(RSq(ds[i]), RMul(s[i], dds[i])))
            IN  RSum(<<x[i], RMul(h, bx[i]), RMul(hh, L0b[i]), RMul(s[i], dW[i]), L1bz,
                       RMul(RMul(RHalf, L1s), RSub(RSq(dW[i]), h)),
                       RMul(L0s, RSub(RMul(h, dW[i]), dZ[i])),
                       RMul(RMul(RHalf, L1L1), RMul(RSub(RDiv(RSq(dW[i]), RInt(3)), h), dW[i]))>>)
    IN  TLCEval([i \in 1..d |-> Comp(i)])
(* law of (dZ, dW), coordinate by coordinate *)
Diag15Cov(d, h) ==
    LET z == RDiv(RPow(h, 3), RInt(3)) zw == RMul(RHalf, RSq(h))
    IN  TLCEval([i \in 1..(2 * d) |-> [j \in 1..(2 * d) |->
            IF i = j THEN (IF i <= d THEN z ELSE h)
            ELSE IF i = j + d \/ j = i + d THEN zw ELSE R0]])

(* Order 1.5 scheme for hypoelliptic diffusions: smooth first coordinate.   *)
HypoMean(b, sg, x, h) ==
    LET bx == FEval(b, x, R0)
        S  == MGram(MFEval(sg, x, R0))
    IN  VAdd(VAdd(x, VScale(h, bx)),
             VScale(RMul(RHalf, RSq(h)),
                    VAdd(MVec(JacEval(b, x, R0), bx), VScale(RHalf, LapW(b, S, x, R0)))))
HypoCov(b, sg, x, h) ==
    LET d  == Len(x)
        G  == SubSeq(MFEval(sg, x, R0), 2, d)
        GG == MGram(G)
        g  == TLCEval([j \in 1..(d - 1) |-> PEval(PD(b[1], j + 1), x, R0)])   \* d_u a
        w  == MVec(GG, g)
    IN  TLCEval([i \in 1..d |-> [j \in 1..d |->
            IF i = 1 /\ j = 1 THEN RMul(RDot(g, w), RDiv(RPow(h, 3), RInt(3)))
            ELSE IF i = 1 THEN RMul(w[j - 1], RMul(RHalf, RSq(h)))
            ELSE IF j = 1 THEN RMul(w[i - 1], RMul(RHalf, RSq(h)))
            ELSE RMul(GG[i - 1][j - 1], h)]])
=============================================================================
