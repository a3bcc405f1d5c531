------------------------------- MODULE NumOps -------------------------------
(***************************************************************************)
(* What the calls on Rational registers and on Integer mean: when they     *)
(* have a value, which, and when they must return it.  Shared by the       *)
(* design machine (NumMachine) and the trace specification (NumTrace).     *)
(* A call is a record e with its operation e.op and arguments; reg is the  *)
(* register file.                                                          *)
(***************************************************************************)
EXTENDS Rat

T(k) == ZPow(ZInt(2), k)
T10 == T(10)
T30 == T(30)
T62 == T(62)
T63 == T(63)
InI64(z) == ZCmp(ZNeg(T63), z) <= 0 /\ ZCmp(z, T63) < 0
IsMin(z) == z = ZNeg(T63)

Below(q, t) == ZLt(ZAbs(q[1]), t) /\ ZLt(q[2], t)
Small(q) == Below(q, T30)

\* is the observed pair a fraction at all, and which number is it?
Usable(v) == v[2] # ZZero
SameQ(v, q) == Usable(v) /\ ZMul(v[1], q[2]) = ZMul(q[1], v[2])

RECURSIVE FoldQ(_, _, _)
FoldQ(op, xs, reg) ==
    IF xs = <<>> THEN IF op = "sum" THEN QZero ELSE QOne
    ELSE LET rest == FoldQ(op, Tail(xs), reg)
         IN  IF op = "sum" THEN QAdd(reg[xs[1]], rest) ELSE QMul(reg[xs[1]], rest)

T60 == T(60)
MaxZ(S) == CHOOSE m \in S : \A z \in S : ZCmp(z, m) <= 0
RECURSIVE LcmAll(_)
LcmAll(S) == IF S = {} THEN ZOne ELSE LET z == CHOOSE z \in S : TRUE
                                          l == LcmAll(S \ {z})
                                      IN  ZMul(ZQuo(z, ZGcd(z, l)), l)
RECURSIVE ProdZ(_)
ProdZ(s) == IF s = <<>> THEN ZOne ELSE ZMul(s[1], ProdZ(Tail(s)))

Abs(i) == IF i < 0 THEN -i ELSE i

\* is the result of the operation defined?
Defined(e, reg) ==
    CASE e.op = "r.new" -> e.m # ZZero
      [] e.op = "r.div" -> reg[e.b] # QZero
      [] e.op = "r.inv" -> reg[e.a] # QZero
      [] e.op = "r.pow" -> reg[e.a] # QZero \/ e.e >= 0
      [] OTHER -> TRUE

\* its exact value
Exact(e, reg) ==
    CASE e.op = "r.new" -> QNorm(e.n, e.m)
      [] e.op = "r.int" -> <<e.n, ZOne>>
      [] e.op = "r.add" -> QAdd(reg[e.a], reg[e.b])
      [] e.op = "r.sub" -> QSub(reg[e.a], reg[e.b])
      [] e.op = "r.mul" -> QMul(reg[e.a], reg[e.b])
      [] e.op = "r.div" -> QDiv(reg[e.a], reg[e.b])
      [] e.op = "r.neg" -> QNeg(reg[e.a])
      [] e.op = "r.inv" -> QInv(reg[e.a])
      [] e.op = "r.pow" -> QPow(reg[e.a], e.e)
      [] e.op \in {"r.sum", "r.product"} -> FoldQ(IF e.op = "r.sum" THEN "sum" ELSE "product", e.xs, reg)

\* operands small enough that no intermediate value of a reasonable
\* implementation leaves the i64 range: such a call has to succeed
MustSucceed(e, reg) ==
    CASE e.op = "r.new" -> ~IsMin(e.n) /\ ~IsMin(e.m)
      [] e.op = "r.int" -> TRUE
      [] e.op \in {"r.neg", "r.inv"} -> ~IsMin(reg[e.a][1])
      [] e.op = "r.pow" ->
            /\ ZLt(ZPow(ZAbs(reg[e.a][1]), Abs(e.e)), T62)
            /\ ZLt(ZPow(reg[e.a][2], Abs(e.e)), T62)
      [] e.op = "r.sum" ->
            \* every partial sum is a fraction with denominator L and numerator at most Len * M * L
            LET xs == {reg[e.xs[i]] : i \in 1..Len(e.xs)}
                M == MaxZ({ZAbs(q[1]) : q \in xs} \cup {ZOne})
                B == MaxZ({q[2] : q \in xs} \cup {ZOne})
                L == LcmAll({q[2] : q \in xs})
            IN  ZLt(ZMul(ZMul(ZMul(ZInt(Len(e.xs) + 1), M), L), B), T60)
      [] e.op = "r.product" ->
            LET F(k) == ProdZ([i \in 1..Len(e.xs) |-> LET z == ZAbs(reg[e.xs[i]][k]) IN IF z = ZZero THEN ZOne ELSE z])
            IN  ZLt(F(1), T60) /\ ZLt(F(2), T60)
      [] OTHER -> Small(reg[e.a]) /\ Small(reg[e.b])

\* ---------------------------------------------------------------- floats
\* machine epsilon
Eps(type) == <<ZOne, IF type = "f64" THEN T(52) ELSE T(23)>>
\* far from overflow and underflow
FloatRange(q) == q = QZero \/ LET s == T(40) IN ZCmp(ZAbs(q[1]), ZMul(s, q[2])) <= 0 /\ ZCmp(q[2], ZMul(s, ZAbs(q[1]))) <= 0
\* equal up to a relative error of a thousand epsilons
Close(type, v, q) == QCmp(QAbs(QSub(v, q)), QMul(QAbs(q), QMul(Eps(type), QInt(1024)))) <= 0

\* --------------------------------------------------------------- integers
LcmZ(a, b) == IF a = ZZero \/ b = ZZero THEN ZZero ELSE ZAbs(ZMul(ZQuo(a, ZGcd(a, b)), b))

IntDefined(e) == e.op \in {"i.div", "i.rem"} => e.b # ZZero
IntExact(e) ==
    CASE e.op = "i.gcd" -> ZGcd(e.a, e.b)
      [] e.op = "i.lcm" -> LcmZ(e.a, e.b)
      [] e.op = "i.add" -> ZAdd(e.a, e.b)
      [] e.op = "i.sub" -> ZSub(e.a, e.b)
      [] e.op = "i.mul" -> ZMul(e.a, e.b)
      [] e.op = "i.div" -> ZQuo(e.a, e.b)
      [] e.op = "i.rem" -> ZRem(e.a, e.b)
      [] e.op = "i.neg" -> ZNeg(e.a)
      [] e.op = "i.abs" -> ZAbs(e.a)
      [] e.op = "i.sgn" -> ZInt(ZSgn(e.a))
      [] e.op = "i.from" -> e.a
      [] e.op = "i.pow" -> ZPow(e.a, e.e)
\* the most negative i64 has no negative: gcd, lcm and remainder may trap on it
IntMustSucceed(e) ==
    /\ InI64(IntExact(e))
    /\ e.op \in {"i.gcd", "i.lcm", "i.rem"} => ~IsMin(e.a) /\ ~IsMin(e.b)
=============================================================================
