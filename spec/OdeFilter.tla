------------------------------ MODULE OdeFilter ------------------------------
(***************************************************************************)
(* Gaussian ODE filters.  The state of a problem with d coordinates and n   *)
(* variables per coordinate is interlaced: derivative j (0..n-1) of          *)
(* coordinate i has index (i-1) n + j + 1.  A filter is the machine          *)
(*     g' = FilterStep(g, pr, times[k+1], us[k+1])                           *)
(* with prior (A, Q, xi), noise R and a polynomial observation.              *)
(***************************************************************************)
EXTENDS GaussFilter

Ix(n, i, j) == (i - 1) * n + j + 1
(* the coordinates' variable j, of a vector or of a matrix *)
Sel(v, n, j) == TLCEval([i \in 1..(Len(v) \div n) |-> v[Ix(n, i, j)]])
SelM(M, n, j) == TLCEval([i \in 1..(Len(M) \div n) |-> Sel(M[Ix(n, i, j)], n, j)])
Interlace(vs) ==   \* vs: n vectors of length d
    LET n == Len(vs) IN TLCEval([k \in 1..(n * Len(vs[1])) |-> vs[((k - 1) % n) + 1][((k - 1) \div n) + 1]])
(* Bs[a][b]: the d x d covariance of variables a and b *)
InterlaceM(Bs) ==
    LET n == Len(Bs) d == Len(Bs[1][1])
    IN  TLCEval([k \in 1..(n * d) |-> [l \in 1..(n * d) |->
            Bs[((k - 1) % n) + 1][((l - 1) % n) + 1][((k - 1) \div n) + 1][((l - 1) \div n) + 1]]])

(* ------------------------------- priors -------------------------------- *)
Fact(n) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN 1 ELSE k * F(k - 1) IN F(n)
(* q times integrated Brownian motion *)
IbmA(q, h) == TLCEval([i \in 1..(q + 1) |-> [j \in 1..(q + 1) |->
                 IF j < i THEN R0 ELSE RDiv(RPow(h, j - i), RInt(Fact(j - i)))]])
IbmQ(q, h) == TLCEval([i \in 1..(q + 1) |-> [j \in 1..(q + 1) |->
                 LET p == q + 1 - i r == q + 1 - j
                 IN  RDiv(RPow(h, p + r + 1), RMul(RInt(p + r + 1), RInt(Fact(p) * Fact(r))))]])
Repeat(M, d) == Kron(MId(d), M)
Ibm(q, h, d) == [A |-> Repeat(IbmA(q, h), d), Q |-> Repeat(IbmQ(q, h), d), xi |-> VZero(d * (q + 1))]

(* ---------------------------- initial value ---------------------------- *)
(* a polynomial in y, t as a polynomial in the state *)
LiftMono(m, d, n) == [c |-> m.c, e |-> TLCEval([k \in 1..(n * d + 1) |->
                        IF k = n * d + 1 THEN m.e[d + 1]
                        ELSE IF (k - 1) % n = 0 THEN m.e[((k - 1) \div n) + 1] ELSE 0])]
Lift(p, d, n) == TLCEval([k \in 1..Len(p) |-> LiftMono(p[k], d, n)])
PVar(D, k) == <<[c |-> R1, e |-> [i \in 1..(D + 1) |-> IF i = k THEN 1 ELSE 0]]>>
(* y' - f(y, t) *)
ObsIvp(f, d, n) == TLCEval([i \in 1..d |-> PAdd(PVar(n * d, Ix(n, i, 1)), PScale(RInt(-1), Lift(f[i], d, n)))])
YMask(d, n) == {Ix(n, i, 0) : i \in 1..d}

(* exact derivatives of the solution at time 0, in so far as f gives them    *)
InitFresh(f, y0, n) ==
    LET d == Len(y0)
        f0 == FEval(f, y0, R0)
        f1 == VAdd(MVec(JacEval(f, y0, R0), f0), DtEval(f, y0, R0))
        vs == [j \in 1..n |-> CASE j = 1 -> y0 [] j = 2 -> f0 [] j = 3 -> f1 [] OTHER -> VZero(d)]
    IN  [m |-> Interlace(vs),
         P |-> TLCEval([k \in 1..(n * d) |-> [l \in 1..(n * d) |->
                  IF k = l /\ (k - 1) % n >= 3 THEN R1 ELSE R0]])]
(* y ~ N(m, P) and y' = f(m) + J (y - m); J = 0 when f is not linearised    *)
InitMixture(f, m, P, ekf0) ==
    LET d == Len(m)
        J == IF ekf0 THEN MZero(d, d) ELSE JacEval(f, m, R0)
        JP == MMul(J, P)
    IN  [m |-> Interlace(<<m, FEval(f, m, R0)>>),
         P |-> InterlaceM(<<<<P, MTr(JP)>>, <<JP, MMulT(JP, J)>>>>)]

Ivp(f, d, n, prior, R, ekf0) ==
    LET o == ObsIvp(f, d, n)
    IN  [A |-> prior.A, Q |-> prior.Q, xi |-> prior.xi, R |-> R, obs |-> o, jac |-> Jac(o, n * d),
         mask |-> IF ekf0 THEN YMask(d, n) ELSE {}]

(* ------------------------ marginalised parabola ------------------------ *)
(* state per coordinate: y, y', increment w, area coefficient a of           *)
(* W(t) = w t/delta + sqrt(6) a (t/delta)(1 - t/delta)                        *)
Rt6 == Root(RInt(6))
ObsMarg(b, sg, d, delta) ==
    LET D == 4 * d
        dW(j) == LET w == PVar(D, Ix(4, j, 2)) a == PVar(D, Ix(4, j, 3))
                     t == [a[1] EXCEPT !.e[D + 1] = 1]
                     c == RDiv(Rt6, delta)
                 IN  PScale(RDiv(R1, delta), w) \o PScale(c, a) \o PScale(RMul(RInt(-2), RDiv(c, delta)), <<t>>)
    IN  TLCEval([i \in 1..d |->
            PAdd(PVar(D, Ix(4, i, 1)),
                 PScale(RInt(-1), PAdd(Lift(b[i], d, 4),
                     PSumAll([j \in 1..d |-> PMul(Lift(sg[i][j], d, 4), dW(j))], 1))))])
MargPrior(p, d) == [A |-> Repeat(BlockDiag2(p.A, MId(2)), d), Q |-> Repeat(BlockDiag2(p.Q, MZero(2, 2)), d),
                    xi |-> TLCEval([k \in 1..(4 * d) |-> LET j == (k - 1) % 4 IN IF j < 2 THEN p.xi[j + 1] ELSE R0])]
Marg(b, sg, d, delta, prior, R, ekf0) ==
    LET o == ObsMarg(b, sg, d, delta) p == MargPrior(prior, d)
    IN  [A |-> p.A, Q |-> p.Q, xi |-> p.xi, R |-> R, obs |-> o, jac |-> Jac(o, 4 * d),
         mask |-> IF ekf0 THEN YMask(d, 4) ELSE {}]
InitMarg(b, sg, y0, delta) ==
    LET d == Len(y0) z == MZero(d, d) i == MId(d)
        S == MFEval(sg, y0, R0)
        Sa == MScale(RMul(RHalf, Rt6), S)
        vv == MScale(RDiv(RInt(4), delta), MGram(S))
    IN  [m |-> Interlace(<<y0, FEval(b, y0, R0), VZero(d), VZero(d)>>),
         P |-> InterlaceM(<<<<z, z, z, z>>, <<z, vv, S, Sa>>,
                            <<z, MTr(S), MScale(delta, i), z>>,
                            <<z, MTr(Sa), z, MScale(RMul(RHalf, delta), i)>>>>)]

Times(h, n) == TLCEval([k \in 1..n |-> RMul(RInt(k), h)])
Ones(n) == TLCEval([k \in 1..n |-> R1])
RECURSIVE RunFrom(_, _, _, _, _)
RunFrom(g, pr, ts, us, k) ==
    IF k > Len(ts) THEN g ELSE Bind(FilterStep(g, pr, ts[k], us[k]), LAMBDA x : RunFrom(x, pr, ts, us, k + 1))
Run(g, pr, h, n) == RunFrom(g, pr, Times(h, n), Ones(n), 1)

(* ----------------------------- calibration ----------------------------- *)
Mle(zs, Ss) ==
    LET n == Len(zs) d == Len(zs[1])
    IN  RDiv(RSum([k \in 1..n |-> RDot(zs[k], VSolve(Ss[k], zs[k]))]), RInt(n * d))
=============================================================================
