----------------------------- MODULE MatMachine -----------------------------
(***************************************************************************)
(* Registers that hold matrices (C15).  Every operation that fits the      *)
(* shapes is a step; the laws of matrix algebra are invariants: products   *)
(* are associative, distribute over sums, and transposition turns them     *)
(* around; a product acts on vectors by composition.                       *)
(***************************************************************************)
EXTENDS Linear, Replay

CONSTANTS F, Types, Ns, Values
VARIABLES A, B, C, x
vars == <<A, B, C, x>>

\* value sets for the configurations
All2 == {0, 1}
Some3 == {1, 2}
All3 == {0, 1, 2}
SomeQ == {QInt(1), QInt(-2)}

MatsOf(m, n) == {[r |-> m, c |-> n, e |-> e] : e \in [1..m * n -> Values]}
\* the third factor: a few of each shape
Few(m, n) == {MkMat(m, n, LAMBDA i, j : IF (i + j) % 2 = 0 THEN FOne(F) ELSE FZero(F)),
              MkMat(m, n, LAMBDA i, j : FInt(F, i + 2 * j))}

Init ==
    \E m, n, k, l \in Ns :
        /\ A \in MatsOf(m, n) /\ B \in MatsOf(n, k) /\ C \in Few(k, l) /\ x \in Values
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

mul(X, Y) == MatMul(F, X, Y)
add(X, Y) == MatAdd(F, X, Y)
Associative == mul(mul(A, B), C) = mul(A, mul(B, C))
Distributive ==
    /\ \A D \in Few(B.r, B.c) : mul(A, add(B, D)) = add(mul(A, B), mul(A, D))
    /\ \A D \in Few(A.r, A.c) : mul(add(A, D), B) = add(mul(A, B), mul(D, B))
Additive ==
    \A D \in Few(A.r, A.c) :
        /\ add(A, D) = add(D, A) /\ add(A, ZeroMat(F, A.r, A.c)) = A
        /\ add(A, MatScale(F, FNeg(F, FOne(F)), A)) = ZeroMat(F, A.r, A.c)
        /\ MatSub(F, add(A, D), D) = A
        /\ MatScale(F, x, add(A, D)) = add(MatScale(F, x, A), MatScale(F, x, D))
Scalars == /\ MatScale(F, x, mul(A, B)) = mul(MatScale(F, x, A), B)
           /\ MatScale(F, x, mul(A, B)) = mul(A, MatScale(F, x, B))
Units == mul(IdMat(F, A.r), A) = A /\ mul(A, IdMat(F, A.c)) = A
Zeros == IsZeroMat(F, mul(A, ZeroMat(F, A.c, 2))) /\ IsZeroMat(F, mul(ZeroMat(F, 2, A.r), A))
Transposes == /\ Transpose(Transpose(A)) = A
              /\ Transpose(mul(A, B)) = mul(Transpose(B), Transpose(A))
              /\ UpperTriangular(F, A) = LowerTriangular(F, Transpose(A))
Columns == \A j \in 1..A.c : mul(A, MkMat(A.c, 1, LAMBDA i, k : IF i = j THEN FOne(F) ELSE FZero(F))) = ColVec(ColOf(A, j))
Rows == /\ OfRows(A.c, [i \in 1..A.r |-> RowOf(A, i)]) = A
        /\ Transpose(OfRows(A.r, [j \in 1..A.c |-> ColOf(A, j)])) = A
Norms == Dot(F, A.e, A.e) = FSum(F, [k \in 1..A.r |-> At(mul(A, Transpose(A)), k, k)])
Shapes == \A M \in {A, B, C, mul(A, B), Transpose(A)} : IsMat(M)

Typed(T, e) == e @@ [F |-> F, T |-> T]
\* both sides of the laws, each operation in some form of its operands
Script(T) ==
    LET h == A.r + 2 * A.c + B.c + (IF A.e # <<>> /\ A.e[1] = x THEN 1 ELSE 0)
        op(e) == Typed(T, e)
    IN  <<op([op |-> "m.new", d |-> 0, m |-> A]), op([op |-> "m.new", d |-> 1, m |-> B]),
          op([op |-> "m.new", d |-> 2, m |-> C]),
          op([op |-> "m.mul", d |-> 3, a |-> 0, b |-> 1, fm |-> h]),
          op([op |-> "m.mul", d |-> 4, a |-> 3, b |-> 2, fm |-> h + 1]),
          op([op |-> "m.mul", d |-> 5, a |-> 1, b |-> 2, fm |-> h + 2]),
          op([op |-> "m.mul", d |-> 5, a |-> 0, b |-> 5, fm |-> h + 3]),
          op([op |-> "m.obs", a |-> 4, b |-> 5]),
          op([op |-> "m.eps", a |-> 4, b |-> 5]),
          op([op |-> "m.tr", d |-> 3, a |-> 3]),
          op([op |-> "m.tr", d |-> 4, a |-> 0]),
          op([op |-> "m.tr", d |-> 5, a |-> 1]),
          op([op |-> "m.mul", d |-> 5, a |-> 5, b |-> 4, fm |-> h]),
          op([op |-> "m.obs", a |-> 3, b |-> 5]),
          op([op |-> "m.frob", a |-> 0]),
          op([op |-> "m.scal", d |-> 3, a |-> 0, x |-> x, fm |-> h]),
          op([op |-> "m.add", d |-> 3, a |-> 3, b |-> 0, fm |-> h + 1]),
          op([op |-> "m.dot", a |-> 3, b |-> 0]),
          op([op |-> "m.obs", a |-> 3, b |-> 0]),
          op([op |-> "m.id", d |-> 4, n |-> A.r]),
          op([op |-> "m.zero", d |-> 5, n |-> A.r, k |-> A.c]),
          op([op |-> "m.mul", d |-> 4, a |-> 4, b |-> 0, fm |-> h + 2]),
          op([op |-> "m.add", d |-> 4, a |-> 4, b |-> 5, fm |-> h + 3]),
          op([op |-> "m.obs", a |-> 4, b |-> 0]),
          op([op |-> "m.add", d |-> 4, a |-> 0, b |-> 1, fm |-> h])>>
        \o (IF A.r * A.c = 0 THEN <<>> ELSE
            <<op([op |-> "m.set", d |-> 0, a |-> 0, i |-> A.r - 1, j |-> A.c - 1, x |-> x, fm |-> h]),
              op([op |-> "m.get", a |-> 0, i |-> 0, j |-> A.c - 1])>>)
\* one value of x for the replay, the first of Few; shapes of one row or column once
Replayed ==
    (C = MkMat(C.r, C.c, LAMBDA i, j : FInt(F, i + 2 * j)) /\ A.r + A.c + B.c + C.c > 3 /\
     (A.e = <<>> \/ x = A.e[Len(A.e)])) => \A T \in Types : Emit(Script(T))
=============================================================================
