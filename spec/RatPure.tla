------------------------------- MODULE RatPure -------------------------------
(***************************************************************************)
(* Exact rational arithmetic in plain TLA+.                                *)
(*                                                                         *)
(* TLC's integers have 32 bits, so a natural number is a little-endian     *)
(* sequence of limbs in base 10^4 without trailing zeros (0 is <<>>), and  *)
(* a rational is <<sign, numerator, denominator>> in lowest terms, sign in *)
(* {-1, 0, 1}, 0 being <<0, <<>>, <<1>>>>.  Normal forms are unique, so =  *)
(* on values is equality of numbers.                                       *)
(*                                                                         *)
(* These are the normative definitions.  Module Rat repeats them under the *)
(* names the rest of the specification uses; java/tlc2/module/Rat.java     *)
(* evaluates the same operators with BigInteger, and MC_Rat compares the   *)
(* two on many values.                                                     *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

B == 10000

(* ----------------------------- naturals ------------------------------- *)
RECURSIVE NTrim(_)
NTrim(a) == IF a = <<>> THEN <<>>
            ELSE IF a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE NOfInt(_)
NOfInt(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o NOfInt(n \div B)

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max(i, j) == IF i >= j THEN i ELSE j

RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN -1
                   ELSE IF a[i] > b[i] THEN 1 ELSE NCmpAt(a, b, i - 1)
(* -1, 0 or 1 *)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpAt(a, b, Len(a))

RECURSIVE NAddFrom(_, _, _, _)
NAddFrom(a, b, i, c) ==
    IF i > Max(Len(a), Len(b)) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET s == Limb(a, i) + Limb(b, i) + c
         IN  <<s % B>> \o NAddFrom(a, b, i + 1, s \div B)
NAdd(a, b) == NAddFrom(a, b, 1, 0)

RECURSIVE NSubFrom(_, _, _, _)
NSubFrom(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET s == a[i] - Limb(b, i) - c
         IN  <<s % B>> \o NSubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
(* a - b, for a >= b *)
NSub(a, b) == NTrim(NSubFrom(a, b, 1, 0))

RECURSIVE NScaleFrom(_, _, _, _)
NScaleFrom(a, k, i, c) ==
    IF i > Len(a) THEN NOfInt(c)
    ELSE LET s == a[i] * k + c IN <<s % B>> \o NScaleFrom(a, k, i + 1, s \div B)
(* a * k, for 0 <= k < B *)
NScale(a, k) == IF k = 0 THEN <<>> ELSE NScaleFrom(a, k, 1, 0)

NShift(a, n) == IF a = <<>> THEN <<>> ELSE [i \in 1..n |-> 0] \o a

RECURSIVE NMulFrom(_, _, _)
NMulFrom(a, b, i) ==
    IF i > Len(a) THEN <<>>
    ELSE NAdd(NScale(b, a[i]), NShift(NMulFrom(a, b, i + 1), 1))
NMul(a, b) == NMulFrom(a, b, 1)

(* greatest q in lo..hi with b * q <= r *)
RECURSIVE NDigit(_, _, _, _)
NDigit(r, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN  IF NCmp(NScale(b, mid), r) <= 0 THEN NDigit(r, b, mid, hi)
                                             ELSE NDigit(r, b, lo, mid - 1)

RECURSIVE NDivFrom(_, _, _)
(* <<quotient, remainder>> of the limbs of a from i upwards *)
NDivFrom(a, b, i) ==
    IF i > Len(a) THEN <<<<>>, <<>>>>
    ELSE LET hi == NDivFrom(a, b, i + 1)
             r  == NTrim(<<a[i]>> \o hi[2])
             q  == NDigit(r, b, 0, B - 1)
         IN  TLCEval(<<NTrim(<<q>> \o hi[1]), NSub(r, NScale(b, q))>>)
NDivMod(a, b) == NDivFrom(a, b, 1)

RECURSIVE NGcd(_, _)
NGcd(a, b) == IF b = <<>> THEN a ELSE NGcd(b, NDivMod(a, b)[2])

RECURSIVE NSqrtFrom(_, _)
(* Newton's iteration from above; the floor of the square root *)
NSqrtFrom(a, x) ==
    LET y == NDivMod(NAdd(x, NDivMod(a, x)[1]), <<2>>)[1]
    IN  IF NCmp(y, x) >= 0 THEN x ELSE NSqrtFrom(a, TLCEval(y))
NSqrt(a) == IF a = <<>> THEN <<>> ELSE NSqrtFrom(a, NShift(<<1>>, (Len(a) + 1) \div 2 + 1))

(* ----------------------------- rationals ------------------------------ *)
Norm(s, n, d) ==
    IF s = 0 \/ n = <<>> THEN <<0, <<>>, <<1>>>>
    ELSE LET g == NGcd(n, d)
         IN  TLCEval(<<s, NDivMod(n, g)[1], NDivMod(d, g)[1]>>)

PQ(n, d) == LET m == IF n < 0 THEN -n ELSE n
            IN  Norm(IF n < 0 THEN -1 ELSE IF n = 0 THEN 0 ELSE 1, NOfInt(m), NOfInt(d))

PNeg(a) == <<-a[1], a[2], a[3]>>
PAbs(a) == <<a[1] * a[1], a[2], a[3]>>

PAdd(a, b) ==
    IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
    ELSE LET x == NMul(a[2], b[3])
             y == NMul(b[2], a[3])
             d == NMul(a[3], b[3])
         IN  IF a[1] = b[1] THEN Norm(a[1], NAdd(x, y), d)
             ELSE IF NCmp(x, y) >= 0 THEN Norm(a[1], NSub(x, y), d)
             ELSE Norm(b[1], NSub(y, x), d)
PSub(a, b) == PAdd(a, PNeg(b))
PMul(a, b) == Norm(a[1] * b[1], NMul(a[2], b[2]), NMul(a[3], b[3]))
PDiv(a, b) == Norm(a[1] * b[1], NMul(a[2], b[3]), NMul(a[3], b[2]))     \* b # 0
PLe(a, b)  == PSub(a, b)[1] <= 0
PLt(a, b)  == PSub(a, b)[1] < 0

RECURSIVE PPow(_, _)
PPow(a, n) == IF n = 0 THEN <<1, <<1>>, <<1>>>> ELSE PMul(a, PPow(a, n - 1))

RECURSIVE PSumFrom(_, _)
PSumFrom(u, i) == IF i > Len(u) THEN <<0, <<>>, <<1>>>> ELSE PAdd(u[i], PSumFrom(u, i + 1))
PSum(u) == PSumFrom(u, 1)

RECURSIVE PDotFrom(_, _, _)
PDotFrom(u, v, i) == IF i > Len(u) THEN <<0, <<>>, <<1>>>>
                     ELSE PAdd(PMul(u[i], v[i]), PDotFrom(u, v, i + 1))
PDot(u, v) == PDotFrom(u, v, 1)

(* a rounded towards zero to a multiple of B^-k *)
PFix(a, k) == IF a[1] = 0 THEN a
              ELSE Norm(a[1], NDivMod(NShift(a[2], k), a[3])[1], NShift(<<1>>, k))

(* the square root of a >= 0, rounded towards zero to a multiple of B^-k *)
PSqrt(a, k) == IF a[1] = 0 THEN a
               ELSE Norm(1, NSqrt(NDivMod(NShift(a[2], 2 * k), a[3])[1]), NShift(<<1>>, k))
=============================================================================
