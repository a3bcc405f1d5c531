----------------------------- MODULE NumMachine -----------------------------
(***************************************************************************)
(* Two registers of rational numbers, and every operation on them, within  *)
(* a box of numerators and denominators (C01, C02, C03).                   *)
(*                                                                         *)
(* Checked of every reachable pair: the representation is canonical, and   *)
(* the only one of its number among all fractions of the box; the axioms   *)
(* of an ordered field, with a third number ranging over a grid; powers    *)
(* are repeated products; numbers declared small enough that a call must   *)
(* succeed cannot make a direct computation leave the word.                *)
(*                                                                         *)
(* Every reachable pair is also a behaviour for the implementation: the    *)
(* calls that lead to it, and then all calls on it.                        *)
(***************************************************************************)
EXTENDS NumOps, Replay

CONSTANTS MaxN, MaxD
VARIABLES reg, h

Two == 0..1
Fractions == {QFrac(n, d) : n \in -MaxN..MaxN, d \in 1..MaxD}
Grid == {QFrac(n, d) : n \in -3..3, d \in 1..3}
InBox(q) == q \in Fractions

\* fractions that are not in lowest terms, or have negative denominators, included
News == [op : {"r.new"}, d : Two, n : {ZInt(i) : i \in {-6, -2, 0, 1, 4}}, m : {ZInt(i) : i \in {-4, 2, 3}}]
Ints == [op : {"r.int"}, d : Two, n : {ZInt(i) : i \in {-1, 1}}]
Bins == [op : {"r.add", "r.sub", "r.mul", "r.div"}, d : Two, a : Two, b : Two, fm : Two]
Uns  == [op : {"r.neg", "r.inv"}, d : Two, a : Two, fm : Two]
Pows == [op : {"r.pow"}, d : Two, a : Two, e : -2..2, fm : 0..2]
Folds == [op : {"r.sum", "r.product"}, d : Two, xs : {<<>>, <<0>>, <<0, 1>>, <<1, 0, 1>>, <<0, 0, 1, 1>>}]

Calls == News \cup Ints \cup Bins \cup Uns \cup Pows \cup Folds

Init == reg = [i \in Two |-> QZero] /\ h = <<>>
Next == \E e \in Calls :
    /\ Defined(e, reg)
    /\ LET q == Exact(e, reg)
       IN  InBox(q) /\ reg' = [reg EXCEPT ![e.d] = q] /\ h' = Append(h, e)
Spec == Init /\ [][Next]_<<reg, h>>
View == reg

x == reg[0]
y == reg[1]

Canonical ==
    /\ QIsCanonical(x)
    /\ \A n \in -(2 * MaxN)..(2 * MaxN) : \A d \in {i \in -(2 * MaxD)..(2 * MaxD) : i # 0} :
          \* n/d is the number x exactly if it normalizes to it
          /\ (ZMul(ZInt(n), x[2]) = ZMul(x[1], ZInt(d))) = (QNorm(ZInt(n), ZInt(d)) = x)
          \* and no other canonical fraction is that number
          /\ ZMul(ZInt(n), x[2]) = ZMul(x[1], ZInt(d)) /\ QIsCanonical(<<ZInt(n), ZInt(d)>>) => <<ZInt(n), ZInt(d)>> = x

Commutative == QAdd(x, y) = QAdd(y, x) /\ QMul(x, y) = QMul(y, x)
Neutral ==
    /\ QAdd(x, QZero) = x /\ QMul(x, QOne) = x /\ QMul(x, QZero) = QZero
    /\ QAdd(x, QNeg(x)) = QZero /\ QSub(x, y) = QAdd(x, QNeg(y))
    /\ x # QZero => QMul(x, QInv(x)) = QOne /\ QInv(QInv(x)) = x /\ QDiv(y, x) = QMul(y, QInv(x))
Associative == \A z \in Grid :
    /\ QAdd(QAdd(x, y), z) = QAdd(x, QAdd(y, z))
    /\ QMul(QMul(x, y), z) = QMul(x, QMul(y, z))
    /\ QMul(x, QAdd(y, z)) = QAdd(QMul(x, y), QMul(x, z))
Ordered ==
    /\ QCmp(x, y) = -QCmp(y, x)
    /\ (QCmp(x, y) = 0) = (x = y)
    /\ QCmp(x, y) = QSgn(QSub(x, y))
    /\ \A z \in Grid :
         /\ QCmp(x, z) <= 0 /\ QCmp(z, y) <= 0 => QCmp(x, y) <= 0
         /\ QCmp(QAdd(x, z), QAdd(y, z)) = QCmp(x, y)
         /\ QCmp(QMul(x, z), QMul(y, z)) = QSgn(z) * QCmp(x, y)
Powers ==
    /\ QPow(x, 0) = QOne /\ QPow(x, 1) = x /\ QPow(x, 2) = QMul(x, x)
    /\ x # QZero => /\ \A k \in -3..3 : QPow(x, k + 1) = QMul(QPow(x, k), x)
                    /\ \A k \in -3..3 : QPow(x, -k) = QInv(QPow(x, k))
Closed == \A e \in Calls : Defined(e, reg) => QIsCanonical(Exact(e, reg))

\* the naive computations on operands below 2^w stay below 2^(2w+1): with w = 30 inside i64
W == 3
NaiveFits == Below(x, T(W)) /\ Below(y, T(W)) =>
    /\ ZLt(ZAdd(ZAbs(ZMul(x[1], y[2])), ZAbs(ZMul(y[1], x[2]))), T(2 * W + 1))
    /\ ZLt(ZMul(x[2], y[2]), T(2 * W + 1))

\* every call on this state, results in a third register
All == Listed([op : {"r.add", "r.sub", "r.mul", "r.div"}, d : {2}, a : Two, b : Two, fm : Two]
              \cup [op : {"r.neg", "r.inv"}, d : {2}, a : {0}, fm : Two]
              \cup [op : {"r.pow"}, d : {2}, a : {0}, e : -3..3, fm : {0, 1, 2}]
              \cup [op : {"r.sum", "r.product"}, d : {2}, xs : {<<>>, <<1, 0, 1>>, <<0, 0, 1, 1>>}]
              \cup [op : {"r.obs"}, a : {0}, b : Two] \cup [op : {"r.obs"}, a : {1}, b : {0}])
Replayed == Emit(h \o All)
=============================================================================
