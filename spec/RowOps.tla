------------------------------- MODULE RowOps -------------------------------
(***************************************************************************)
(* A matrix under elementary row operations, with the product of the       *)
(* elementary matrices used so far (C16).  Every sequence of operations    *)
(* multiplies from the left by an invertible matrix; it keeps the row      *)
(* space, and each operation can be undone by one of the same kind.        *)
(***************************************************************************)
EXTENDS Linear, Replay

CONSTANTS F, Types, Shapes
ShapesA == {<<0, 2>>, <<1, 1>>, <<2, 0>>, <<2, 2>>, <<2, 3>>, <<3, 1>>, <<3, 2>>}
ShapesB == {<<1, 2>>, <<2, 1>>, <<2, 2>>}
VARIABLES A0, A, E, left
vars == <<A0, A, E, left>>

Values == IF F = 0 THEN {QInt(0), QInt(1), QInt(-2)} ELSE 0..F - 1
\* scalars of row operations; zero is allowed where it does no harm
Units == IF F = 0 THEN {QInt(1), QInt(-2), <<ZOne, ZInt(2)>>} ELSE 1..F - 1
MatsOf(m, n) == {[r |-> m, c |-> n, e |-> e] : e \in [1..m * n -> Values]}
All == UNION {MatsOf(s[1], s[2]) : s \in Shapes}

Init == A0 \in All /\ A = A0 /\ E = IdMat(F, A0.r) /\ left = (IF F = 0 THEN 1 ELSE 6)

Apply(B, X) == A' = B /\ E' = MatMul(F, X, E) /\ left' = left - 1 /\ UNCHANGED A0
n == A.r
Scale == \E i \in 1..n : \E s \in Units : Apply(ScaleRow(F, A, i, s), ElemScale(F, n, i, s))
Swap  == \E i, j \in 1..n : Apply(SwapRows(A, i, j), ElemSwap(F, n, i, j))
Add   == \E i, j \in 1..n : \E s \in Units :
            i # j /\ Apply(AddRow(F, A, i, j, s), ElemAdd(F, n, i, j, s))
Next == left > 0 /\ (Scale \/ Swap \/ Add)
Spec == Init /\ [][Next]_vars
View == <<A0, A, E>>

Accumulates == MatMul(F, E, A0) = A
Invertible == RankOf(F, E) = n
SameRowSpace == Rref(F, A) = Rref(F, A0) /\ RankOf(F, A) = RankOf(F, A0)

Undone ==
    A = A0 =>
    /\ \A i \in 1..n : \A s \in Units : ScaleRow(F, ScaleRow(F, A, i, s), i, FInv(F, s)) = A
    /\ \A i, j \in 1..n : SwapRows(SwapRows(A, i, j), i, j) = A
    /\ \A i, j \in 1..n : i # j => \A s \in Units : AddRow(F, AddRow(F, A, i, j, s), i, j, FNeg(F, s)) = A
    \* adding a row to itself is scaling by one more
    /\ \A i \in 1..n : \A s \in Units : AddRow(F, A, i, i, s) = ScaleRow(F, A, i, FAdd(F, s, FOne(F)))
\* permutation matrices are the products of swaps; the convention of PermMat
Permutes ==
    A = A0 => \A p \in Permutations(1..n) :
        LET P == PermMat(F, [i \in 1..n |-> p[i]])
        IN  /\ IsPermMat(F, P)
            /\ \A i \in 1..n : RowOf(MatMul(F, P, A), i) = RowOf(A, p[i])
            /\ MatMul(F, Transpose(P), P) = IdMat(F, n)

Typed(T, e) == e @@ [F |-> F, T |-> T]
New(T) == Typed(T, [op |-> "m.new", d |-> 0, m |-> A])
Step(T, row, elem, i, j, s, fm) ==
    <<Typed(T, [op |-> row, d |-> 1, a |-> 0, i |-> i - 1, j |-> j - 1, x |-> s]),
      Typed(T, [op |-> elem, d |-> 2, n |-> n, i |-> i - 1, j |-> j - 1, x |-> s]),
      Typed(T, [op |-> "m.mul", d |-> 3, a |-> 2, b |-> 0, fm |-> fm]),
      Typed(T, [op |-> "m.obs", a |-> 1, b |-> 3])>>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
U == Listed(Units)
u1 == U[1]
Script(T) ==
    <<New(T)>>
    \o Flat([k \in 1..n * Len(U) |-> Step(T, "r.scale", "e.scale", ((k - 1) % n) + 1, 1, U[((k - 1) \div n) + 1], k % 4)])
    \o Flat([k \in 1..n * n |-> Step(T, "r.swap", "e.swap", ((k - 1) % n) + 1, ((k - 1) \div n) + 1, u1, k % 4)])
    \o Flat([k \in 1..n * n |-> Step(T, "r.add", "e.add", ((k - 1) % n) + 1, ((k - 1) \div n) + 1, U[(k % Len(U)) + 1], k % 4)])
    \o Flat(LET ps == Listed(Permutations(1..n))
            IN  [k \in 1..Len(ps) |->
                  <<Typed(T, [op |-> "e.perm", d |-> 2, p |-> [i \in 1..n |-> ps[k][i] - 1]]),
                    Typed(T, [op |-> "m.mul", d |-> 3, a |-> 2, b |-> 0, fm |-> k % 4])>>])
    \o Flat([i \in 1..n |-> <<Typed(T, [op |-> "v.row", d |-> 4, a |-> 0, i |-> i - 1, j |-> 0]),
                              Typed(T, [op |-> "v.rowlist", a |-> 0, i |-> i - 1, j |-> 0])>>])
    \o Flat([j \in 1..A.c |-> <<Typed(T, [op |-> "v.col", d |-> 4, a |-> 0, i |-> 0, j |-> j - 1]),
                                Typed(T, [op |-> "v.collist", a |-> 0, i |-> 0, j |-> j - 1])>>])
    \o (IF n * A.c = 0 THEN <<>> ELSE
        <<Typed(T, [op |-> "v.rowmut", d |-> 5, a |-> 0, i |-> n - 1, j |-> 0, es |-> [j \in 1..A.c |-> u1]]),
          Typed(T, [op |-> "v.colmut", d |-> 5, a |-> 0, i |-> 0, j |-> A.c - 1, es |-> [i \in 1..n |-> u1]]),
          Typed(T, [op |-> "m.swap", d |-> 0, a |-> 0, i |-> 0, j |-> 0, k |-> n - 1, l |-> A.c - 1])>>)
Replayed == (A = A0 /\ E = IdMat(F, n) /\ A.r * A.c > 0) => \A T \in Types : Emit(Script(T))
=============================================================================
