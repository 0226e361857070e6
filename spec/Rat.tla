--------------------------------- MODULE Rat ---------------------------------
(***************************************************************************)
(* The rationals the specification computes with: the operators of RatPure *)
(* under their own names.  On a class path that has tlc2/module/Rat.class  *)
(* TLC evaluates RAdd ... RSqrt with java.math.BigInteger; without it, by  *)
(* the definitions below.  MC_Rat checks that both agree.                  *)
(***************************************************************************)
LOCAL INSTANCE RatPure
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

(* A recorded number that is not finite has sign 2; it is absorbing and    *)
(* incomparable.                                                           *)
NaN == <<2, <<>>, <<1>>>>
LOCAL Ok(a) == a[1] # 2

RQ(n, d)    == PQ(n, d)           \* n/d, for TLC integers n and d > 0
RNeg(a)     == IF Ok(a) THEN PNeg(a) ELSE NaN
RAbs(a)     == IF Ok(a) THEN PAbs(a) ELSE NaN
RAdd(a, b)  == IF Ok(a) /\ Ok(b) THEN PAdd(a, b) ELSE NaN
RSub(a, b)  == IF Ok(a) /\ Ok(b) THEN PSub(a, b) ELSE NaN
RMul(a, b)  == IF Ok(a) /\ Ok(b) THEN PMul(a, b) ELSE NaN
RDiv(a, b)  == IF Ok(a) /\ Ok(b) THEN PDiv(a, b) ELSE NaN
RLe(a, b)   == Ok(a) /\ Ok(b) /\ PLe(a, b)
RLt(a, b)   == Ok(a) /\ Ok(b) /\ PLt(a, b)
RPow(a, n)  == IF Ok(a) THEN PPow(a, n) ELSE NaN
RSum(u)     == IF \A i \in 1..Len(u) : Ok(u[i]) THEN PSum(u) ELSE NaN
RDot(u, v)  == IF \A i \in 1..Len(u) : Ok(u[i]) /\ Ok(v[i]) THEN PDot(u, v) ELSE NaN
RFix(a, k)  == IF Ok(a) THEN PFix(a, k) ELSE NaN
RSqrt(a, k) == IF Ok(a) THEN PSqrt(a, k) ELSE NaN

(* ------------------------- derived, not overridden -------------------- *)
R0 == <<0, <<>>, <<1>>>>
R1 == <<1, <<1>>, <<1>>>>
R2 == <<1, <<2>>, <<1>>>>
RHalf == <<1, <<1>>, <<2>>>>
RInt(n) == RQ(n, 1)
RSq(a) == RMul(a, a)
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RIsZero(a) == a[1] = 0

Finite(a) == a[1] # 2

(* |a - b| <= tol * (1 + |b|): an observation a agrees with the exact b *)
Near(a, b, tol) ==
    /\ Finite(a)
    /\ RLe(RAbs(RSub(a, b)), RMul(tol, RAdd(R1, RAbs(b))))

(* the same with an explicit scale *)
NearS(a, b, tol, scale) ==
    /\ Finite(a)
    /\ RLe(RAbs(RSub(a, b)), RMul(tol, scale))

(* Precision of the few irrational quantities: multiples of B^-10 = 10^-40 *)
Digits == 10
Root(a) == RSqrt(a, Digits)
Round(a) == RFix(a, 15)

(* Op(e), with e evaluated once: TLC passes operator arguments unevaluated  *)
(* and may evaluate them again at every use                                 *)
Bind(e, Op(_)) == CHOOSE r \in {Op(v) : v \in {e}} : TRUE

(* exp by its Taylor series after halving the argument m times *)
RECURSIVE ExpHorner(_, _)
ExpHorner(x, n) == IF n > 32 THEN R1
                   ELSE Bind(ExpHorner(x, n + 1), LAMBDA r : Round(RAdd(R1, RDiv(RMul(x, r), RInt(n)))))
RECURSIVE RExp(_)
RExp(x) == IF RLe(RAbs(x), RHalf) THEN ExpHorner(x, 1)
           ELSE Bind(RExp(RMul(x, RHalf)), LAMBDA e : Round(RSq(e)))
=============================================================================
