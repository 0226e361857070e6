-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Polynomials in the coordinates x_1..x_d and the time t, exact.          *)
(* A polynomial is a sequence of monomials [c |-> rational, e |-> <<e_1,    *)
(* ..., e_d, e_t>>]; a field is a sequence of polynomials, a matrix field  *)
(* a sequence of rows of polynomials.  These are the drifts, diffusions    *)
(* and vector fields of the specification; they can be differentiated, so  *)
(* the specification knows exact Jacobians and Hessians.                   *)
(***************************************************************************)
EXTENDS Mat

PZero == <<>>
PConst(c, d) == IF RIsZero(c) THEN <<>> ELSE <<[c |-> c, e |-> [i \in 1..(d + 1) |-> 0]]>>

MonoEval(m, x, t) ==
    LET d == Len(x)
        RECURSIVE Pr(_, _)
        Pr(i, acc) == IF i > d THEN acc
                      ELSE IF m.e[i] = 0 THEN Pr(i + 1, acc)
                      ELSE Pr(i + 1, RMul(acc, RPow(x[i], m.e[i])))
    IN  Pr(1, IF m.e[d + 1] = 0 THEN m.c ELSE RMul(m.c, RPow(t, m.e[d + 1])))
PEval(p, x, t) == RSum([k \in 1..Len(p) |-> MonoEval(p[k], x, t)])
FEval(f, x, t) == TLCEval([i \in 1..Len(f) |-> PEval(f[i], x, t)])
MFEval(s, x, t) == TLCEval([i \in 1..Len(s) |-> FEval(s[i], x, t)])

(* derivative with respect to variable v (v = d + 1 is t) *)
PD(p, v) ==
    LET q == SelectSeq(p, LAMBDA m : m.e[v] # 0)
    IN  TLCEval([k \in 1..Len(q) |-> [c |-> RMul(RInt(q[k].e[v]), q[k].c),
                              e |-> [q[k].e EXCEPT ![v] = @ - 1]]])
(* Jacobian with respect to x: row i is the gradient of f_i *)
Jac(f, d) == TLCEval([i \in 1..Len(f) |-> [j \in 1..d |-> PD(f[i], j)]])
JacEval(f, x, t) == MFEval(Jac(f, Len(x)), x, t)
Grad(p, d) == TLCEval([j \in 1..d |-> PD(p, j)])
HessEval(p, x, t) == LET d == Len(x)
                     IN  TLCEval([i \in 1..d |-> [j \in 1..d |-> PEval(PD(PD(p, i), j), x, t)]])
DtEval(f, x, t) == TLCEval([i \in 1..Len(f) |-> PEval(PD(f[i], Len(x) + 1), x, t)])

(* ----------------------------- algebra -------------------------------- *)
PAdd(p, q) == p \o q
PScale(a, p) == TLCEval([k \in 1..Len(p) |-> [p[k] EXCEPT !.c = RMul(a, @)]])
PMul(p, q) ==
    LET n == Len(q)
    IN  TLCEval([k \in 1..(Len(p) * n) |->
            LET a == p[((k - 1) \div n) + 1] b == q[((k - 1) % n) + 1]
            IN  [c |-> RMul(a.c, b.c), e |-> [i \in 1..Len(a.e) |-> a.e[i] + b.e[i]]]])
RECURSIVE PSumAll(_, _)
PSumAll(ps, i) == IF i > Len(ps) THEN <<>> ELSE ps[i] \o PSumAll(ps, i + 1)
FAdd(f, g) == TLCEval([i \in 1..Len(f) |-> PAdd(f[i], g[i])])
(* the matrix field s times the field w *)
MFMul(s, w) == TLCEval([i \in 1..Len(s) |-> PSumAll([j \in 1..Len(w) |-> PMul(s[i][j], w[j])], 1)])

Binom(n, k) == LET RECURSIVE C(_, _)
                   C(a, b) == IF b = 0 \/ a = b THEN 1 ELSE C(a - 1, b - 1) + C(a - 1, b)
               IN  C(n, k)
(* p(x, t + a) *)
MonoShift(m, d, a) ==
    LET n == m.e[d + 1]
    IN  TLCEval([k \in 1..(n + 1) |->
            [c |-> RMul(m.c, RMul(RInt(Binom(n, k - 1)), RPow(a, n - k + 1))),
             e |-> [m.e EXCEPT ![d + 1] = k - 1]]])
PShift(p, d, a) == TLCEval(PSumAll([k \in 1..Len(p) |-> MonoShift(p[k], d, a)], 1))
FShift(f, d, a) == TLCEval([i \in 1..Len(f) |-> PShift(f[i], d, a)])
MFShift(s, d, a) == TLCEval([i \in 1..Len(s) |-> FShift(s[i], d, a)])

(* an affine polynomial  c + k t  in the time alone *)
PAffT(c, k, d) == LET z == [i \in 1..(d + 1) |-> 0]
                  IN  <<[c |-> c, e |-> z], [c |-> k, e |-> [z EXCEPT ![d + 1] = 1]]>>
=============================================================================
