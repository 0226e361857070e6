--------------------------- MODULE MC_GaussFilter ---------------------------
(* Linear filters with two states and one observation, small integers.  The *)
(* ghost variable jt is the joint law of the current state and all           *)
(* observations so far, without any filtering; the filter must agree with    *)
(* conditioning it.                                                          *)
EXTENDS GaussFilter
VARIABLES pr, g, k, jt, pred
vars == <<pr, g, k, jt, pred>>
I(n) == RInt(n)
Mx(M) == TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> RInt(M[i][j])]])
V(v) == TLCEval([i \in 1..Len(v) |-> RInt(v[i])])
As == {Mx(<<<<1, 1>>, <<0, 1>>>>), Mx(<<<<0, 0>>, <<2, -1>>>>), Mx(<<<<1, 0>>, <<0, 1>>>>)}
Qs == {Mx(<<<<0, 0>>, <<0, 0>>>>), Mx(<<<<1, 1>>, <<1, 2>>>>), Mx(<<<<4, 2>>, <<2, 1>>>>)}
Xis == {V(<<0, 0>>), V(<<1, -2>>)}
Hs == {V(<<0, 1>>), V(<<1, -1>>), V(<<2, 3>>)}
Cs == {I(0), I(5)}
Rs == {I(0), I(3)}
P0s == {Mx(<<<<0, 0>>, <<0, 0>>>>), Mx(<<<<2, 1>>, <<1, 1>>>>), Mx(<<<<1, -2>>, <<-2, 4>>>>)}

Init == /\ pr \in [A : As, Q : Qs, xi : Xis, h : Hs, c : Cs, R : Rs]
        /\ g \in {[m |-> V(<<1, -1>>), P |-> P] : P \in P0s}
        /\ jt = g /\ pred = g /\ k = 0
H1 == <<pr.h>>
(* one filter step: predict, then condition on c + h x + noise = 0 *)
Step ==
    LET p == Predict(g, pr.A, pr.Q, pr.xi)
        u == Update(p, <<RAdd(pr.c, RDot(pr.h, p.m))>>, H1, <<<<pr.R>>>>)
        n == Len(jt.m)
        \* the joint law after the same step: move the state, append the observation
        AA == TLCEval([i \in 1..n |-> IF i <= 2 THEN pr.A[i] \o VZero(n - 2) ELSE VUnit(n, i)])
        QQ == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i <= 2 /\ j <= 2 THEN pr.Q[i][j] ELSE R0]])
        mv == Image(jt, AA, pr.xi \o VZero(n - 2), QQ)
        OO == TLCEval([i \in 1..(n + 1) |-> IF i <= n THEN VUnit(n, i) ELSE pr.h \o VZero(n - 2)])
        RR == TLCEval([i \in 1..(n + 1) |-> [j \in 1..(n + 1) |-> IF i = n + 1 /\ j = n + 1 THEN pr.R ELSE R0]])
    IN  /\ u.ok
        /\ g' = [m |-> u.m, P |-> u.P] /\ pred' = p
        /\ jt' = Image(mv, OO, VZero(n) \o <<pr.c>>, RR)
Next == k < 3 /\ k' = k + 1 /\ Step /\ UNCHANGED pr
Spec == Init /\ [][Next]_vars

(* elimination rounds at 10^-60 *)
ExactConditioning == LET c == Condition(jt, 2) e == RPow(RQ(1, 10000), 10)
                     IN  VNear(c.m, g.m, e) /\ MNear(c.P, g.P, e)
Psd == IsSym(g.P) /\ IsPsd(g.P)
NeverGrows == IsPsd(MSub(pred.P, g.P))
(* noise-free observations hold exactly at the mean and almost surely *)
Interpolates == (k > 0 /\ RIsZero(pr.R)) =>
    /\ RAdd(pr.c, RDot(pr.h, g.m)) = R0
    /\ MSandwich(H1, g.P) = <<<<R0>>>>
=============================================================================
