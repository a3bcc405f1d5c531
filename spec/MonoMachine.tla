---------------------------- MODULE MonoMachine -----------------------------
(***************************************************************************)
(* Two registers of monomials as the library stores them, that is raw      *)
(* exponent vectors, and the operations on them (C05).                     *)
(*                                                                         *)
(* The operations work on representations, element by element with         *)
(* padding, and trim the result; checked is that they refine the monoid of *)
(* exponent functions (variable -> exponent, zero almost everywhere): that *)
(* the stored vectors are canonical, equality of vectors is equality of    *)
(* functions, and that divisibility, quotient, product and total degree    *)
(* are those of functions; and the laws of a free commutative monoid.      *)
(***************************************************************************)
EXTENDS Monomial, Replay

CONSTANTS Vars, Top           \* number of variables, largest exponent
VARIABLES reg, h

Two == 0..1
Idx == 1..(Vars + 1)                       \* one variable more than is ever used

\* the function a vector stands for
Fn(m) == [i \in Idx |-> MAt(m, i)]

\* representation-level operations
RECURSIVE DropZeros(_)
DropZeros(s) == IF s = <<>> THEN <<>> ELSE IF s[Len(s)] = 0 THEN DropZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
AddVec(s, t) ==
    LET long == IF Len(s) >= Len(t) THEN s ELSE t
        short == IF Len(s) >= Len(t) THEN t ELSE s
    IN  [i \in 1..Len(long) |-> IF i <= Len(short) THEN long[i] + short[i] ELSE long[i]]
\* none, or the difference
SubVec(s, t) ==
    IF Len(t) > Len(s) \/ \E i \in 1..Len(t) : t[i] > s[i] THEN <<>>
    ELSE <<DropZeros([i \in 1..Len(s) |-> IF i <= Len(t) THEN s[i] - t[i] ELSE s[i]])>>

Raws == UNION {[1..n -> 0..Top] : n \in 0..Vars}
News == [op : {"m.new", "m.trim"}, d : Two, raw : {<<>>, <<0, 0>>, <<1>>, <<0, 1>>, <<0, 0, 2>>, <<1, 0, 1>>, <<0, 1, 0>>, <<2, 2, 2>>, <<2, 0, 1, 0>>}]
VarCalls == [op : {"m.var"}, d : Two, i : 0..(Vars - 1), k : 0..Top]
Zeros == [op : {"m.zero"}, d : Two, k : 0..2]
Adds == [op : {"m.add"}, d : Two, a : Two, b : Two, fm : {0, 1, 2, 3}]
Subs == [op : {"m.sub"}, d : Two, a : Two, b : Two]
Calls == News \cup VarCalls \cup Zeros \cup Adds \cup Subs

\* result as a list of at most one
Result(e) ==
    CASE e.op \in {"m.new", "m.trim"} -> <<DropZeros(e.raw)>>
      [] e.op = "m.var" -> <<DropZeros([j \in 1..(e.i + 1) |-> IF j = e.i + 1 THEN e.k ELSE 0])>>
      [] e.op = "m.zero" -> <<<<>>>>
      [] e.op = "m.add" -> <<AddVec(reg[e.a], reg[e.b])>>
      [] e.op = "m.sub" -> SubVec(reg[e.a], reg[e.b])

InBox(m) == Len(m) <= Vars /\ \A i \in 1..Len(m) : m[i] <= Top

Init == reg = [i \in Two |-> <<>>] /\ h = <<>>
Next == \E e \in Calls :
    LET r == Result(e)
    IN  /\ r # <<>> /\ InBox(r[1])
        /\ reg' = [reg EXCEPT ![e.d] = r[1]] /\ h' = Append(h, e)
View == reg

x == reg[0]
y == reg[1]
\* a third monomial
Third == {z \in Raws : DropZeros(z) = z}

Canonical == \A m \in {x, y} : MIsCanonical(m) /\ MTrim(m) = m
Faithful == (x = y) = (Fn(x) = Fn(y))
Product ==
    /\ Fn(AddVec(x, y)) = [i \in Idx |-> Fn(x)[i] + Fn(y)[i]]
    /\ AddVec(x, y) = MMul(x, y)
    /\ MIsCanonical(AddVec(x, y))
Divisibility ==
    LET div == \A i \in Idx : Fn(y)[i] <= Fn(x)[i]
    IN  /\ MDivides(y, x) = div
        /\ (SubVec(x, y) # <<>>) = div
        /\ div => /\ Fn(SubVec(x, y)[1]) = [i \in Idx |-> Fn(x)[i] - Fn(y)[i]]
                  /\ SubVec(x, y)[1] = MQuo(x, y)
                  /\ AddVec(y, SubVec(x, y)[1]) = x
        /\ SubVec(AddVec(x, y), y) = <<x>>
        /\ div = \E z \in Third : MMul(y, z) = x
Laws ==
    /\ MMul(x, y) = MMul(y, x) /\ MMul(x, MOne) = x
    /\ (MDivides(x, y) /\ MDivides(y, x)) = (x = y)
    /\ MMul(x, y) = x => y = MOne
    /\ MTotal(MMul(x, y)) = MTotal(x) + MTotal(y)
    /\ MTotal(x) = 0 => x = MOne
    /\ \A z \in Third :
         /\ MMul(MMul(x, y), z) = MMul(x, MMul(y, z))
         /\ MMul(x, z) = MMul(y, z) => x = y
         /\ MDivides(x, y) /\ MDivides(y, z) => MDivides(x, z)
         /\ MDivides(x, y) = MDivides(MMul(x, z), MMul(y, z))
Lattice ==
    /\ MMul(MLcm(x, y), MGcd(x, y)) = MMul(x, y)
    /\ \A z \in Third :
         /\ MDivides(x, z) /\ MDivides(y, z) => MDivides(MLcm(x, y), z)
         /\ MDivides(z, x) /\ MDivides(z, y) => MDivides(z, MGcd(x, y))
    /\ MDivides(x, MLcm(x, y)) /\ MDivides(y, MLcm(x, y))
    /\ MIsCanonical(MLcm(x, y)) /\ MIsCanonical(MGcd(x, y))

All == Listed([op : {"m.add"}, d : {2}, a : {0}, b : {1}, fm : 0..3]
              \cup [op : {"m.add"}, d : {3}, a : {1}, b : {0}, fm : 0..3]
              \cup [op : {"m.sub"}, d : {4}, a : Two, b : Two])
       \o <<[op |-> "m.obs", a |-> 0, b |-> 1], [op |-> "m.obs", a |-> 1, b |-> 0],
            [op |-> "m.sub", d |-> 5, a |-> 2, b |-> 0], [op |-> "m.obs", a |-> 5, b |-> 1],
            [op |-> "m.obs", a |-> 2, b |-> 3], [op |-> "m.obs", a |-> 4, b |-> 2]>>
Replayed == Emit(h \o All)
=============================================================================
