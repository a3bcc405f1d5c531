-------------------------------- MODULE Rat ---------------------------------
(***************************************************************************)
(* The rational numbers, as pairs <<n, d>> of BigInt with d > 0 and        *)
(* gcd(n, d) = 1, so that equality of pairs is equality of numbers.        *)
(***************************************************************************)
EXTENDS BigInt

QZero == <<ZZero, ZOne>>
QOne  == <<ZOne, ZOne>>

\* the canonical representative of n/d (d # 0)
QNorm(n, d) ==
    LET g == ZGcd(n, d)
        s == ZInt(ZSgn(d))
    IN  <<ZMul(s, ZQuo(n, g)), ZQuo(ZAbs(d), g)>>

\* is the pair a canonical representative?
QIsCanonical(q) == ZSgn(q[2]) = 1 /\ ZGcd(q[1], q[2]) = ZOne

QInt(i) == <<ZInt(i), ZOne>>
QFrac(i, j) == QNorm(ZInt(i), ZInt(j))

QAdd(a, b) == QNorm(ZAdd(ZMul(a[1], b[2]), ZMul(b[1], a[2])), ZMul(a[2], b[2]))
QNeg(a)    == <<ZNeg(a[1]), a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == QNorm(ZMul(a[1], b[1]), ZMul(a[2], b[2]))
QInv(a)    == QNorm(a[2], a[1])                       \* a # 0
QDiv(a, b) == QNorm(ZMul(a[1], b[2]), ZMul(a[2], b[1]))
QSgn(a)    == ZSgn(a[1])
QCmp(a, b) == ZCmp(ZMul(a[1], b[2]), ZMul(b[1], a[2]))
QAbs(a)    == <<ZAbs(a[1]), a[2]>>

\* integer powers; QPow(0, k) is undefined for k < 0
QPow(a, k) ==
    IF k >= 0 THEN QNorm(ZPow(a[1], k), ZPow(a[2], k))
    ELSE QNorm(ZPow(a[2], -k), ZPow(a[1], -k))

=============================================================================
