------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Unbounded integers for TLC, whose own integers stop at 32 bits.         *)
(*                                                                         *)
(* An integer is the tuple <<s, l1, ..., ln>> of its sign s \in {-1,0,1}   *)
(* and its base-10000 limbs, least significant first, ln # 0.  Zero is     *)
(* <<0>>.  The representation is canonical, so equality of tuples is       *)
(* equality of numbers.                                                    *)
(*                                                                         *)
(* The definitions below are complete and executable.  TLC may be given    *)
(* the Java overrides in java/BigIntOverrides.java for speed; SelfTest.tla *)
(* checks that the overrides and these definitions agree.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL B == 10000

ZZero == <<0>>
ZOne  == <<1, 1>>

ZSgn(a) == a[1]
LOCAL Mag(a) == Tail(a)
LOCAL Mk(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m

\* ------------------------------------------------------------ magnitudes
RECURSIVE Strip(_)
Strip(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Strip(SubSeq(m, 1, Len(m) - 1)) ELSE m

LOCAL At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
LOCAL Max2(a, b) == IF a < b THEN b ELSE a

RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) ==
    IF i > Max2(Len(a), Len(b)) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET t == At(a, i) + At(b, i) + c
         IN  <<t % B>> \o AddC(a, b, i + 1, t \div B)
LOCAL AddMag(a, b) == AddC(a, b, 1, 0)

RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF a[i] # b[i] THEN IF a[i] < b[i] THEN -1 ELSE 1
    ELSE CmpAt(a, b, i - 1)
LOCAL CmpMag(a, b) ==
    IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1
    ELSE CmpAt(a, b, Len(a))

RECURSIVE SubC(_, _, _, _)
SubC(a, b, i, c) ==            \* assumes |a| >= |b|
    IF i > Len(a) THEN <<>>
    ELSE LET t == a[i] - At(b, i) - c
         IN  <<t % B>> \o SubC(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
LOCAL SubMag(a, b) == Strip(SubC(a, b, 1, 0))

RECURSIVE MulDigitC(_, _, _, _)
MulDigitC(a, d, i, c) ==
    IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET t == a[i] * d + c
         IN  <<t % B>> \o MulDigitC(a, d, i + 1, t \div B)
LOCAL MulDigit(a, d) == Strip(MulDigitC(a, d, 1, 0))

RECURSIVE MulC(_, _, _)
MulC(a, b, i) ==               \* a * (b_i + B b_{i+1} + ...)
    IF i > Len(b) THEN <<>>
    ELSE LET hi == MulC(a, b, i + 1)
         IN  Strip(AddMag(MulDigit(a, b[i]), IF hi = <<>> THEN <<>> ELSE <<0>> \o hi))
LOCAL MulMag(a, b) == MulC(a, b, 1)

\* largest d \in lo..hi with d * b <= a
RECURSIVE QuoDigit(_, _, _, _)
QuoDigit(a, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN  IF CmpMag(MulDigit(b, mid), a) <= 0 THEN QuoDigit(a, b, mid, hi)
             ELSE QuoDigit(a, b, lo, mid - 1)

\* schoolbook long division, most significant limb first
RECURSIVE DivC(_, _, _, _, _)
DivC(a, b, i, q, r) ==
    IF i = 0 THEN <<Strip(q), r>>
    ELSE LET r1 == Strip(<<a[i]>> \o r)
             d  == QuoDigit(r1, b, 0, B - 1)
         IN  DivC(a, b, i - 1, <<d>> \o q, SubMag(r1, MulDigit(b, d)))
LOCAL DivMag(a, b) == DivC(a, b, Len(a), <<>>, <<>>)

RECURSIVE GcdMag(_, _)
GcdMag(a, b) == IF b = <<>> THEN a ELSE GcdMag(b, DivMag(a, b)[2])

\* ------------------------------------------------------------- integers
RECURSIVE NatLimbs(_)
NatLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o NatLimbs(n \div B)

\* the number with TLC integer value i
ZInt(i) == IF i = 0 THEN <<0>> ELSE IF i > 0 THEN <<1>> \o NatLimbs(i) ELSE <<-1>> \o NatLimbs(-i)

ZNeg(a) == IF a[1] = 0 THEN a ELSE <<-a[1]>> \o Mag(a)
ZAbs(a) == IF a[1] < 0 THEN ZNeg(a) ELSE a

ZAdd(a, b) ==
    IF a[1] = 0 THEN b
    ELSE IF b[1] = 0 THEN a
    ELSE IF a[1] = b[1] THEN Mk(a[1], AddMag(Mag(a), Mag(b)))
    ELSE LET c == CmpMag(Mag(a), Mag(b))
         IN  IF c = 0 THEN ZZero
             ELSE IF c > 0 THEN Mk(a[1], SubMag(Mag(a), Mag(b)))
             ELSE Mk(b[1], SubMag(Mag(b), Mag(a)))

ZSub(a, b) == ZAdd(a, ZNeg(b))

ZMul(a, b) ==
    IF a[1] = 0 \/ b[1] = 0 THEN ZZero
    ELSE Mk(a[1] * b[1], MulMag(Mag(a), Mag(b)))

\* -1, 0 or 1 as a < b, a = b or a > b
ZCmp(a, b) ==
    IF a[1] # b[1] THEN IF a[1] < b[1] THEN -1 ELSE 1
    ELSE IF a[1] = 0 THEN 0
    ELSE a[1] * CmpMag(Mag(a), Mag(b))

ZLeq(a, b) == ZCmp(a, b) <= 0
ZLt(a, b)  == ZCmp(a, b) < 0

\* quotient and remainder of division truncated towards zero (b # 0)
ZQuo(a, b) == IF a[1] = 0 THEN ZZero ELSE Mk(a[1] * b[1], DivMag(Mag(a), Mag(b))[1])
ZRem(a, b) == IF a[1] = 0 THEN ZZero ELSE Mk(a[1], DivMag(Mag(a), Mag(b))[2])

\* the nonnegative generator of the ideal <a, b>
ZGcd(a, b) == Mk(1, GcdMag(Mag(a), Mag(b)))

RECURSIVE ZPow(_, _)
ZPow(a, n) == IF n = 0 THEN ZOne ELSE ZMul(a, ZPow(a, n - 1))

=============================================================================
