----------------------------- MODULE MC_Schemes -----------------------------
(* Design checks of the schemes: paths driven by a finite law of the noise *)
(* that matches the moments of (dW, dZ) occurring in one step.             *)
EXTENDS Schemes, Json

VARIABLES scheme, pr, k, x, path
vars == <<scheme, pr, k, x, path>>

M(c, e) == [c |-> RInt(c), e |-> e]
B1 == {<<<<>>>>, <<<<M(2, <<0, 0>>)>>>>, <<<<M(3, <<1, 0>>)>>>>, <<<<M(1, <<2, 0>>), M(-1, <<0, 0>>)>>>>}
S1 == {<<<<<<M(2, <<0, 0>>)>>>>>>, <<<<<<M(5, <<1, 0>>)>>>>>>, <<<<<<M(1, <<2, 0>>), M(1, <<0, 0>>)>>>>>>}
Tm == {<<<<M(1, <<0, 1>>)>>>>, <<<<M(1, <<1, 1>>), M(2, <<0, 0>>)>>>>}
Two == [b |-> <<<<M(1, <<1, 1, 0>>)>>, <<M(-1, <<0, 0, 0>>), M(2, <<0, 1, 0>>)>>>>,
        sg |-> <<<<<<M(3, <<0, 0, 0>>)>>, <<>>>>, <<<<>>, <<M(1, <<0, 2, 0>>)>>>>>>]

Problems == {[b |-> b, sg |-> g, r |-> r, n |-> 2, x0 |-> <<RInt(2)>>] : b \in B1, g \in S1, r \in {RHalf, R1}}
TProblems == {[b |-> b, sg |-> g, r |-> r, n |-> 2, x0 |-> <<RInt(2)>>] : b \in B1 \cup Tm, g \in S1, r \in {RHalf}}
P2 == {[b |-> Two.b, sg |-> Two.sg, r |-> R1, n |-> 1, x0 |-> <<RInt(1), RInt(-1)>>]}

h == RMul(RInt(3), RSq(pr.r))
Dim == Len(pr.x0)
(* dW = 3 r u,  dZ = h/2 (dW + r v) *)
U == {-1, 0, 1}
V == {-1, 1}
DW(u) == [i \in 1..Len(u) |-> RMul(RInt(3 * u[i]), pr.r)]
DZ(u, v) == [i \in 1..Len(u) |-> RMul(RMul(RHalf, h), RAdd(DW(u)[i], RMul(RInt(v[i]), pr.r)))]
WeightW(u) == IF u = 0 THEN RQ(2, 3) ELSE RQ(1, 6)

Init == /\ scheme \in {"em", "diag15", "euler"} /\ k = 0 /\ path = <<>>
        /\ pr \in (IF scheme = "diag15" THEN Problems \cup P2 ELSE TProblems)
        /\ x = pr.x0
Em == /\ scheme = "em"
      /\ \E u \in [1..Dim -> U] : x' = EmStep(pr.b, pr.sg, x, RMul(RInt(k), h), h, DW(u)) /\ path' = Append(path, DW(u))
Diag == /\ scheme = "diag15"
        /\ \E u \in [1..Dim -> U], v \in [1..Dim -> V] :
              x' = Diag15Step(pr.b, pr.sg, x, h, DW(u), DZ(u, v)) /\ path' = Append(path, <<u, v>>)
Euler == /\ scheme = "euler" /\ x' = EulerStep(pr.b, x, RMul(RInt(k), h), h) /\ path' = <<>>
Next == /\ k < pr.n /\ k' = k + 1 /\ UNCHANGED <<scheme, pr>>
        /\ (Em \/ Diag \/ Euler)
        /\ (scheme = "em" /\ k' = pr.n) =>
              PrintT("SCEN " \o ToJson([b |-> pr.b, sg |-> pr.sg, h |-> h, n |-> pr.n, x0 |-> pr.x0, path |-> path']))
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
(* the conditional mean of the order 1.5 step is x + h b + h^2/2 L0 b       *)
Mean15 ==
    scheme = "diag15" =>
    LET us == [1..Dim -> U] vs == [1..Dim -> V]
        wgt(u) == LET RECURSIVE W(_)
                      W(i) == IF i > Dim THEN R1 ELSE RMul(RMul(WeightW(u[i]), RHalf), W(i + 1))
                  IN  W(1)
        RECURSIVE SumOver(_, _)
        SumOver(S, acc) == IF S = {} THEN acc
                           ELSE LET p == CHOOSE p \in S : TRUE
                                IN  SumOver(S \ {p}, TLCEval(VAdd(acc, VScale(wgt(p[1]),
                                        Diag15Step(pr.b, pr.sg, x, h, DW(p[1]), DZ(p[1], p[2]))))))
        L0b == VAdd(MVec(JacEval(pr.b, x, R0), FEval(pr.b, x, R0)),
                    VScale(RHalf, LapW(pr.b, MGram(MFEval(pr.sg, x, R0)), x, R0)))
    IN  k < 2 => SumOver(us \X vs, VZero(Dim))
                 = VAdd(x, VAdd(VScale(h, FEval(pr.b, x, R0)), VScale(RMul(RHalf, RSq(h)), L0b)))
(* geometric Brownian motion: the truncated Ito-Taylor expansion of exp     *)
Gbm15 ==
    (scheme = "diag15" /\ Dim = 1 /\ pr.b = <<<<M(3, <<1, 0>>)>>>> /\ pr.sg = <<<<<<M(5, <<1, 0>>)>>>>>>) =>
    \A u \in U : \A v \in V :
        LET w == DW(<<u>>)[1] a == RInt(3) c == RInt(5)
            e == RSum(<<R1, RMul(a, h), RMul(c, w), RMul(RMul(RHalf, RSq(c)), RSub(RSq(w), h)),
                        RMul(RMul(RHalf, RSq(a)), RSq(h)), RMul(RMul(RMul(a, c), h), w),
                        RMul(RDiv(RPow(c, 3), RInt(6)), RMul(w, RSub(RSq(w), RMul(RInt(3), h))))>>)
        IN  Diag15Step(pr.b, pr.sg, x, h, <<w>>, DZ(<<u>>, <<v>>))[1] = RMul(x[1], e)
(* additive noise without drift: the sum of the increments *)
RECURSIVE SumPath(_)
SumPath(p) == IF p = <<>> THEN R0 ELSE RAdd(Head(p)[1], SumPath(Tail(p)))
Telescope == (scheme = "em" /\ pr.b = <<<<>>>> /\ pr.sg = <<<<<<M(2, <<0, 0>>)>>>>>>)
             => x[1] = RAdd(pr.x0[1], RMul(R2, SumPath(path)))
(* linear growth: (1 + 3 h)^k *)
Linear == (scheme = "euler" /\ pr.b = <<<<M(3, <<1, 0>>)>>>>)
          => x[1] = RMul(pr.x0[1], RPow(RAdd(R1, RMul(RInt(3), h)), k))
(* restarting after k steps with the time shifted continues the same run *)
RestartAgrees ==
    (scheme = "euler" /\ k < pr.n) =>
        EulerStep(pr.b, x, RMul(RInt(k), h), h) = EulerStep(FShift(pr.b, Dim, RMul(RInt(k), h)), x, R0, h)
=============================================================================
