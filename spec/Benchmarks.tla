----------------------------- MODULE Benchmarks -----------------------------
(***************************************************************************)
(* Moments of an SDE with polynomial drift b and polynomial covariance     *)
(* a = sigma sigma^T (both autonomous), written in the deviation y from    *)
(* the initial state, so that the process starts at 0.  With the generator *)
(*   L f = sum_i b_i d_i f + 1/2 sum_ij a_ij d_ij f                        *)
(* the moments are  E f(Y_t) = sum_k t^k/k! (L^k f)(0): truncated, the     *)
(* Taylor expansion; in full, exact whenever L maps the polynomials of     *)
(* degree <= 2 into themselves (b affine, a of degree <= 2).               *)
(***************************************************************************)
EXTENDS Poly

(* collect equal monomials *)
RECURSIVE Collect(_, _)
Collect(p, acc) ==
    Bind(<<p, acc>>, LAMBDA z : LET r == z[1] a == z[2] IN
    IF r = <<>> THEN SelectSeq(a, LAMBDA m : ~RIsZero(m.c))
    ELSE LET m == r[1]
             k == CHOOSE j \in 0..Len(a) : IF \E i \in 1..Len(a) : a[i].e = m.e THEN j > 0 /\ a[j].e = m.e ELSE j = 0
         IN  Collect(Tail(r), IF k = 0 THEN Append(a, m) ELSE [a EXCEPT ![k].c = RAdd(@, m.c)]))
Gen(b, a, f) ==
    LET d == Len(b)
        g == TLCEval([j \in 1..d |-> PD(f, j)])
        second(i) == PSumAll([j \in 1..d |-> PScale(RHalf, PMul(a[i][j], PD(g[i], j)))], 1)
    IN  Collect(TLCEval(PSumAll([i \in 1..d |-> PMul(b[i], g[i]) \o second(i)], 1)), <<>>)
AtZero(f, d) == PEval(f, VZero(d), R0)
(* the sequence (L^k f)(0), k = 0..n *)
RECURSIVE Ders(_, _, _, _)
Ders(b, a, f0, n) == Bind(f0, LAMBDA f :
    <<AtZero(f, Len(b))>> \o (IF n = 0 THEN <<>> ELSE Ders(b, a, Gen(b, a, f), n - 1)))
PX(i, d) == <<[c |-> R1, e |-> [j \in 1..(d + 1) |-> IF j = i THEN 1 ELSE 0]]>>
Fact(k) == LET RECURSIVE F(_) F(j) == IF j <= 1 THEN R1 ELSE RMul(RInt(j), F(j - 1)) IN F(k)
(* Taylor coefficients in t of E f(Y_t) *)
Coef(b, a, f, n) == Bind(Ders(b, a, f, n), LAMBDA D : TLCEval([k \in 1..(n + 1) |-> RDiv(D[k], Fact(k - 1))]))
(* of the product of two series, and a series at t *)
Conv(u, v) == TLCEval([k \in 1..Len(u) |-> RSum([j \in 1..k |-> RMul(u[j], v[k - j + 1])])])
RECURSIVE SerFrom(_, _, _)
SerFrom(u, t, k) == IF k > Len(u) THEN R0 ELSE Bind(SerFrom(u, t, k + 1), LAMBDA r : Round(RAdd(u[k], RMul(t, r))))
Ser(u, t) == SerFrom(u, t, 1)
(* coefficients of the mean of Y_i, and of the covariance of Y_i and Y_j *)
MeanC(b, a, i, n) == Coef(b, a, PX(i, Len(b)), n)
CovC(b, a, i, j, n) ==
    LET d == Len(b)
    IN  Bind(<<Coef(b, a, PMul(PX(i, d), PX(j, d)), n), MeanC(b, a, i, n), MeanC(b, a, j, n)>>, LAMBDA z :
             VSub(z[1], Conv(z[2], z[3])))
=============================================================================
