---------------------------- MODULE FieldMachine ----------------------------
(***************************************************************************)
(* Integer powers in a field as a state machine (C23): the exponent is     *)
(* counted up or down, multiplying or dividing by the base.  Every value   *)
(* of the exponent is reached with the value the specification gives the   *)
(* power; zero has no negative ones.  Inverses are the powers with         *)
(* exponent -1.                                                            *)
(***************************************************************************)
EXTENDS NumOps, Replay

CONSTANTS N, K         \* bases i/2^j with |i| <= N, exponents up to K
VARIABLES x, e, p
vars == <<x, e, p>>

Bases == {QNorm(ZInt(i), T(j)) : i \in -N..N, j \in 0..2}
Init == x \in Bases /\ e = 0 /\ p = QOne
Up   == e >= 0 /\ e < K /\ e' = e + 1 /\ p' = QMul(p, x) /\ UNCHANGED x
Down == e <= 0 /\ e > -K /\ x # QZero /\ e' = e - 1 /\ p' = QDiv(p, x) /\ UNCHANGED x
Next == Up \/ Down
Spec == Init /\ [][Next]_vars

PowerOK == p = QPow(x, e) /\ QIsCanonical(p)
\* the exponent laws, on what has been reached
LawsOK ==
    /\ x # QZero => QMul(p, QPow(x, -e)) = QOne
    /\ e >= 0 => QPow(QNeg(x), e) = IF e % 2 = 0 THEN p ELSE QNeg(p)
    /\ \A k \in 0..K : (x # QZero \/ e >= 0) => QMul(p, QPow(x, k)) = QPow(x, e + k)
    /\ e = -1 => p = QInv(x) /\ QMul(x, p) = QOne

\* differences around the bound of approximate equality, in quarters of it
Near(type) == [k \in 1..13 |-> QMul(Eps(type), QFrac(k - 7, 4))]
Types == <<"Rational", "f64", "f32">>
Calls(t) ==
    <<[op |-> "f.pow", T |-> t, x |-> x, e |-> e]>>
    \o (IF e = 0
        THEN <<[op |-> "f.unit", T |-> t, x |-> x]>>
             \o (IF x = QZero THEN <<[op |-> "f.eps", T |-> t, x |-> x, y |-> QOne]>>
                 ELSE <<[op |-> "f.inv", T |-> t, x |-> x], [op |-> "f.eps", T |-> t, x |-> x, y |-> x]>>)
             \* exactly representable
             \o (IF x = QZero /\ t # "Rational" THEN [k \in 1..13 |-> [op |-> "f.eps", T |-> t, x |-> x, y |-> Near(t)[k]]] ELSE <<>>)
             \o (IF x = QOne /\ t # "Rational"
                 THEN [k \in 1..3 |-> [op |-> "f.eps", T |-> t, x |-> x, y |-> QAdd(x, QMul(Eps(t), QInt(k - 1)))]]
                      \o [k \in 1..5 |-> [op |-> "f.eps", T |-> t, x |-> QSub(x, QMul(Eps(t), QFrac(k - 1, 2))), y |-> x]]
                 ELSE <<>>)
        ELSE <<>>)
Ints == IF e = 0 /\ x[2] = ZOne THEN <<[op |-> "f.num", T |-> "i64", x |-> x[1]]>> ELSE <<>>
Replayed == Emit(Ints \o Calls(Types[1]) \o Calls(Types[2]) \o Calls(Types[3]))
=============================================================================
