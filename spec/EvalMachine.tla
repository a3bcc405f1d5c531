---------------------------- MODULE EvalMachine -----------------------------
(***************************************************************************)
(* Evaluation of a polynomial at a point: the terms are taken in any order *)
(* and their values summed (C09).  The sum does not depend on the order,   *)
(* and evaluation is a homomorphism from polynomials to the field that     *)
(* sends the constants to themselves and the variables to the coordinates. *)
(***************************************************************************)
EXTENDS PolyOps, Replay

CONSTANTS F, Types, Size
VARIABLES f, x, rest, acc
vars == <<f, x, rest, acc>>

Monos == IF Size = 1 THEN {<<>>, <<1>>, <<2>>, <<0, 1>>} ELSE {<<>>, <<1>>, <<1, 1>>, <<0, 3>>, <<0, 0, 2>>}
Coefs == IF F = 0 THEN {QInt(1), QFrac(-3, 2)} ELSE 1..(F - 1)
Values == IF F = 0 THEN {QInt(0), QInt(1), QInt(-2), QFrac(1, 2)} ELSE 0..(F - 1)
Dim == IF Size = 1 THEN 2 ELSE 3

Fns == UNION {[D -> Coefs] : D \in {E \in SUBSET Monos : Cardinality(E) <= 3}}
Points == [1..Dim -> Values]

\* a power by repeated multiplication
RECURSIVE Power(_, _)
Power(c, k) == IF k = 0 THEN FOne(F) ELSE FMul(F, c, Power(c, k - 1))
RECURSIVE TermVal(_, _, _)
TermVal(c, m, i) == IF i > Len(m) THEN c ELSE TermVal(FMul(F, c, Power(x[i], m[i])), m, i + 1)

Init == f \in Fns /\ x \in Points /\ rest = DOMAIN f /\ acc = FZero(F)
Next == \E m \in rest :
    /\ rest' = rest \ {m}
    /\ acc' = FAdd(F, acc, TermVal(f[m], m, 1))
    /\ UNCHANGED <<f, x>>
Spec == Init /\ [][Next]_vars

Partial == FAdd(F, acc, PEval(F, [m \in rest |-> f[m]], x)) = PEval(F, f, x)
Finished == rest = {} => acc = PEval(F, f, x)
Start == rest = DOMAIN f
Homomorphism == Start => \A g \in {[m \in D |-> FOne(F)] : D \in SUBSET Monos} :
    /\ PEval(F, PAdd(F, f, g), x) = FAdd(F, PEval(F, f, x), PEval(F, g, x))
    /\ PEval(F, PMul(F, f, g), x) = FMul(F, PEval(F, f, x), PEval(F, g, x))
Generators == Start =>
    /\ PEval(F, POne(F), x) = FOne(F) /\ PEval(F, PZero, x) = FZero(F)
    /\ \A i \in 1..Dim : PEval(F, PTerm(F, FOne(F), MVar(i, 1)), x) = x[i]
    /\ \A c \in Coefs : PEval(F, PConst(F, c), x) = c

SetToSeqs == Listed(DOMAIN f)
Ts == [i \in 1..Cardinality(DOMAIN f) |-> <<f[SetToSeqs[i]], SetToSeqs[i]>>]
Typed(T, e) == e @@ [F |-> F, T |-> T]
\* each function once, with all points, and with one coordinate too few
XSeq == [j \in 1..Dim |-> x[j]]
Script(T) ==
    <<Typed(T, [op |-> "p.new", d |-> 0, ts |-> Ts])>>
    \o [i \in 1..Cardinality(Points) |->
          Typed(T, [op |-> "p.eval", a |-> 0, x |-> [j \in 1..Dim |-> Listed(Points)[i][j]], tame |-> 1])]
    \o [k \in 1..(Dim - 1) |-> Typed(T, [op |-> "p.eval", a |-> 0, x |-> SubSeq(XSeq, 1, k), tame |-> 1])]
    \o [i \in 1..Len(Ts) |-> Typed(T, [op |-> "t.eval", t |-> Ts[i], x |-> XSeq, tame |-> 1])]
Replayed == Start /\ x = (CHOOSE p \in Points : TRUE) => \A T \in Types : Emit(Script(T))
=============================================================================
