------------------------------ MODULE Criterion ------------------------------
(***************************************************************************)
(* The test for Groebner bases (C12), one pair of elements after the       *)
(* other, in any order, with or without skipping pairs whose leading       *)
(* monomials are coprime: the answer is always the same, and it is right:  *)
(* the leading monomials of all members of the ideal (here, those which    *)
(* multiples of bounded degree show to be members) are divisible by those  *)
(* of the list exactly if the test says so.                                *)
(***************************************************************************)
EXTENDS Ideal, Replay

CONSTANTS F, Types, Size, D
VARIABLES ord, gs, todo, ok
vars == <<ord, gs, todo, ok>>

c1 == FOne(F)
cm == IF F = 0 THEN QInt(-2) ELSE F - 1
NV == IF Size = 2 THEN 3 ELSE 2
Sets == CASE Size = 1 -> {E \in SUBSET {<<>>, <<1>>, <<0, 1>>, <<1, 1>>, <<2>>} : Cardinality(E) \in 1..3}
          [] Size = 2 -> {{<<1, 1>>, <<0, 0, 1>>}, {<<1>>, <<0, 1>>}, {<<0, 2>>, <<1>>}, {<<0, 0, 1>>}, {<<1>>, <<>>},
                          {<<0, 1, 1>>, <<2>>}, {<<0, 0, 2>>, <<0, 1>>, <<>>}}
          [] OTHER -> {{<<>>}, {<<1>>}, {<<0, 1>>, <<1>>}, {<<1, 1>>, <<>>}, {<<2>>, <<0, 1>>}, {<<1, 1>>, <<0, 2>>},
                       {<<2>>, <<0, 2>>}, {<<2>>, <<1>>, <<0, 1>>}, {<<1, 1>>, <<0, 1>>}, {<<0, 2>>, <<1>>, <<>>}}
Fn(E) == [m \in E |-> IF MTotal(m) = 1 THEN cm ELSE c1]
Pool == {Fn(E) : E \in Sets}
Lists == {<<>>, <<PZero>>} \cup {<<a, b>> : a, b \in Pool \cup {PZero}}
         \cup (IF Size = 1 THEN {} ELSE {<<a, b, c>> : a, b, c \in Pool})

Pairs == {<<i, j>> : i, j \in 1..Len(gs)}
IsPair(q) == q[1] < q[2] /\ gs[q[1]] # PZero /\ gs[q[2]] # PZero
Good(q) == PRem(F, ord, PSPoly(F, ord, gs[q[1]], gs[q[2]]), gs) = PZero

Init == ord \in Orders /\ gs \in Lists /\ todo = {q \in Pairs : IsPair(q)} /\ ok = TRUE
Check == \E q \in todo : todo' = todo \ {q} /\ ok' = (ok /\ Good(q)) /\ UNCHANGED <<ord, gs>>
Skip == \E q \in todo :
    /\ Coprime(PLm(ord, gs[q[1]]), PLm(ord, gs[q[2]]))
    /\ todo' = todo \ {q} /\ UNCHANGED <<ord, gs, ok>>
Next == Check \/ Skip
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NonZeros == SelectSeq(gs, LAMBDA x : x # PZero)
Decides == todo = {} => ok = IsGroebner(F, ord, NonZeros)
Start == ok /\ todo = {q \in Pairs : IsPair(q)}
Semantics == Start =>
    LET B == Macaulay(F, ord, gs, NV, D)
        covered == \A m \in DOMAIN B : \E i \in 1..Len(NonZeros) : MDivides(PLm(ord, NonZeros[i]), m)
    IN  /\ IsGroebner(F, ord, NonZeros) => covered
        \* without a bound on degrees the witness may have a degree above D
        /\ (ord \in {"grlex", "grevlex"} \/ NV = 2) /\ covered => IsGroebner(F, ord, NonZeros)

Ts(g) == LET s == Listed(DOMAIN g) IN [i \in 1..Len(s) |-> <<g[s[i]], s[i]>>]
Typed(T, e) == e @@ [F |-> F, T |-> T]
Script(T) ==
    [i \in 1..Len(gs) |-> Typed(T, [op |-> "p.new", d |-> i - 1, ts |-> Ts(gs[i])])]
    \o <<Typed(T, [op |-> "g.crit", ord |-> ord, gs |-> [i \in 1..Len(gs) |-> i - 1]])>>
Replayed == Start => \A T \in Types : Emit(Script(T))
=============================================================================
