------------------------------- MODULE MC_Rat -------------------------------
(* The accelerated operators agree with the pure definitions, and the pure *)
(* definitions satisfy the field and order laws, on the values enumerated. *)
EXTENDS Rat, Integers, Sequences, TLC
P == INSTANCE RatPure

VARIABLES a, b, n
vars == <<a, b, n>>

Seeds == {P!PQ(p, q) : p \in {-7, 0, 9999}, q \in {1, 12345}}

Init == a \in Seeds /\ b \in Seeds /\ n = 0

\* grow the operands so that several limbs are exercised
Next == /\ n < 2
        /\ n' = n + 1
        /\ \/ a' = P!PAdd(P!PMul(a, a), b) /\ b' = b
           \/ a' = a /\ b' = P!PSub(P!PMul(b, a), P!PQ(123456789, 10007))

Spec == Init /\ [][Next]_vars

Same ==
    /\ RAdd(a, b) = P!PAdd(a, b)
    /\ RSub(a, b) = P!PSub(a, b)
    /\ RMul(a, b) = P!PMul(a, b)
    /\ b[1] # 0 => RDiv(a, b) = P!PDiv(a, b)
    /\ RLe(a, b) = P!PLe(a, b)
    /\ RLt(a, b) = P!PLt(a, b)
    /\ RNeg(a) = P!PNeg(a)
    /\ RAbs(a) = P!PAbs(a)
    /\ n < 1 => RPow(a, 3) = P!PPow(a, 3)
    /\ RSum(<<a, b, a>>) = P!PSum(<<a, b, a>>)
    /\ RDot(<<a, b>>, <<b, b>>) = P!PDot(<<a, b>>, <<b, b>>)
    /\ \A x \in {RNeg(NaN), RAbs(NaN), RAdd(a, NaN), RSub(NaN, b), RSub(a, NaN), RMul(NaN, a), RDiv(a, NaN),
                RDiv(NaN, a), RPow(NaN, 2), RSum(<<a, NaN>>), RDot(<<a, NaN>>, <<b, R0>>), RFix(NaN, 3), RSqrt(NaN, 3)} : x = NaN
    /\ ~RLe(NaN, a) /\ ~RLe(a, NaN) /\ ~RLt(NaN, a) /\ ~RLt(a, NaN)
    /\ RFix(a, 3) = P!PFix(a, 3)
    /\ (a[1] >= 0 /\ n < 2) => RSqrt(a, 3) = P!PSqrt(a, 3)

Laws ==
    /\ P!PAdd(a, b) = P!PAdd(b, a)
    /\ P!PMul(a, b) = P!PMul(b, a)
    /\ P!PSub(P!PAdd(a, b), b) = a
    /\ b[1] # 0 => P!PMul(P!PDiv(a, b), b) = a
    /\ P!PMul(a, P!PAdd(a, b)) = P!PAdd(P!PMul(a, a), P!PMul(a, b))
    /\ P!PLe(a, b) \/ P!PLt(b, a)
    /\ P!PLe(P!PAbs(P!PSub(P!PFix(a, 3), a)), P!PQ(1, 10000))
=============================================================================
