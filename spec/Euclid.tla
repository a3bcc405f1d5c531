------------------------------- MODULE Euclid -------------------------------
(***************************************************************************)
(* Euclid's algorithm as a state machine, for all pairs of small integers  *)
(* (C04): each step keeps the common divisors; the remainder shrinks, so   *)
(* that the algorithm stops; it stops with the generator of the ideal of   *)
(* the two numbers (up to sign), which is what ZGcd is.  Truncated         *)
(* division and the derived least common multiple are checked against      *)
(* their definitions.                                                      *)
(***************************************************************************)
EXTENDS NumOps, Replay

CONSTANT N
VARIABLES a0, b0, a, b
vars == <<a0, b0, a, b>>

Dom == -N..N
Abs2(i) == IF i < 0 THEN -i ELSE i
\* remainder of truncated division of TLC integers
TRem(i, j) == LET m == Abs2(i) % Abs2(j) IN IF i < 0 THEN -m ELSE m
TQuo(i, j) == LET q == Abs2(i) \div Abs2(j) IN IF (i < 0) = (j < 0) THEN q ELSE -q

Init == a0 \in Dom /\ b0 \in Dom /\ a = a0 /\ b = b0
Next == b # 0 /\ a' = b /\ b' = TRem(a, b) /\ UNCHANGED <<a0, b0>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == b = 0
Terminates == <>Done
Shrinks == [][Abs2(b') < Abs2(b)]_vars

Divides(d, i) == IF d = 0 THEN i = 0 ELSE TRem(i, d) = 0
CommonDivisors(i, j) == {d \in 0..N : Divides(d, i) /\ Divides(d, j)}
KeepsDivisors == CommonDivisors(a, b) = CommonDivisors(a0, b0)

GcdOK == LET g == ZGcd(ZInt(a0), ZInt(b0))
         IN  /\ Done => g = ZInt(Abs2(a))
             /\ ZSgn(g) >= 0
             /\ \E k \in 0..N :
                   /\ g = ZInt(k)
                   /\ \A d \in CommonDivisors(a0, b0) : Divides(d, k)
                   /\ k \in CommonDivisors(a0, b0)
                   \* Bezout: an integer combination
                   /\ \E s, t \in Dom : s * a0 + t * b0 = k
LcmOK == LET l == LcmZ(ZInt(a0), ZInt(b0))
         IN  \E k \in 0..(N * N) :
                /\ l = ZInt(k)
                /\ Divides(a0, k) /\ Divides(b0, k)
                /\ (k = 0) = (a0 = 0 \/ b0 = 0)
                /\ \A i \in 1..(k - 1) : ~(Divides(a0, i) /\ Divides(b0, i))
                /\ a0 * b0 # 0 => ZMul(ZGcd(ZInt(a0), ZInt(b0)), l) = ZInt(Abs2(a0 * b0))
DivOK == b0 # 0 =>
    LET q == ZQuo(ZInt(a0), ZInt(b0))
        r == ZRem(ZInt(a0), ZInt(b0))
    IN  /\ ZAdd(ZMul(q, ZInt(b0)), r) = ZInt(a0)
        /\ ZLt(ZAbs(r), ZAbs(ZInt(b0)))
        /\ r = ZZero \/ ZSgn(r) = ZSgn(ZInt(a0))
        /\ q = ZInt(TQuo(a0, b0)) /\ r = ZInt(TRem(a0, b0))
OrderOK == ZCmp(ZInt(a0), ZInt(b0)) = (IF a0 < b0 THEN -1 ELSE IF a0 > b0 THEN 1 ELSE 0)

Ops == <<"i.gcd", "i.lcm", "i.add", "i.sub", "i.mul", "i.div", "i.rem", "i.neg", "i.abs", "i.sgn", "i.from", "i.obs">>
Replayed == <<a, b>> = <<a0, b0>> =>
    Emit([k \in 1..Len(Ops) |-> [op |-> Ops[k], a |-> ZInt(a0), b |-> ZInt(b0)]]
         \o [k \in 1..(IF b0 = 0 THEN 12 ELSE 0) |-> [op |-> "i.pow", a |-> ZInt(a0), e |-> k - 1]])
=============================================================================
