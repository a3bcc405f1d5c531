------------------------------- MODULE Gauss --------------------------------
(***************************************************************************)
(* Gaussian elimination with every choice of pivots (C17, C18, C19).       *)
(*                                                                         *)
(* Forward, column by column: any row with a non-zero entry may be the     *)
(* pivot row.  Throughout, Q A0 = L U for a permutation matrix Q and a     *)
(* lower triangular L with non-zero diagonal, and P A0 = U with P          *)
(* invertible.  It ends in an echelon form.  Backward, pivots cleared in   *)
(* any order: it ends in a reduced echelon form, the same for all          *)
(* schedules, from which a kernel and a range basis are read off; over     *)
(* GF(p) these are compared with the kernel and the image themselves.      *)
(***************************************************************************)
EXTENDS Cone, Replay

CONSTANTS F, Types, Shapes, Values
VARIABLES A0, U, L, Q, P, q, j, pc
vars == <<A0, U, L, Q, P, q, j, pc>>

\* shapes and values for the configurations
Small == {<<m, n>> : m, n \in 0..2} \cup {<<1, 3>>, <<3, 1>>, <<2, 3>>, <<3, 2>>}
Square3 == {<<3, 3>>}
Wide == {<<2, 3>>, <<3, 2>>, <<2, 4>>, <<4, 2>>}
All2 == {0, 1}
All3 == {0, 1, 2}
ThreeQ == {QInt(0), QInt(1), QInt(-1)}
OtherQ == {QInt(0), QInt(1), QInt(-2)}

MatsOf(m, n) == {[r |-> m, c |-> n, e |-> e] : e \in [1..m * n -> Values]}

Init ==
    /\ \E s \in Shapes : A0 \in MatsOf(s[1], s[2])
    /\ U = A0 /\ L = IdMat(F, A0.r) /\ Q = L /\ P = L /\ q = 1 /\ j = 1 /\ pc = "forward"

m == A0.r
n == A0.c
Nz(i, k) == ~FIsZero(F, At(U, i, k))
Skip == /\ pc = "forward" /\ q <= m /\ j <= n /\ (\A i \in q..m : ~Nz(i, j))
        /\ j' = j + 1 /\ UNCHANGED <<A0, U, L, Q, P, q, pc>>
\* the part of L that belongs to finished columns moves with the rows
SwapL(i) == MkMat(m, m, LAMBDA a, b : IF b >= q THEN At(L, a, b) ELSE At(L, IF a = q THEN i ELSE IF a = i THEN q ELSE a, b))
Pivot == \E i \in q..m :
    /\ pc = "forward" /\ j <= n /\ Nz(i, j)
    /\ LET V == SwapRows(U, q, i)
           p == At(V, q, j)
           inv == FInv(F, p)
           clear(X, f(_, _)) == MkMat(X.r, X.c, LAMBDA a, b : IF a < q THEN At(X, a, b) ELSE f(a, b))
           R == SwapRows(P, q, i)
           step(X) == MkMat(X.r, X.c, LAMBDA a, b :
                        IF a < q THEN At(X, a, b)
                        ELSE IF a = q THEN FMul(F, inv, At(X, q, b))
                        ELSE FSub(F, At(X, a, b), FMul(F, FMul(F, At(V, a, j), inv), At(X, q, b))))
       IN  /\ U' = step(V) /\ P' = step(R) /\ Q' = SwapRows(Q, q, i)
           /\ L' = LET M == SwapL(i) IN MkMat(m, m, LAMBDA a, b : IF b = q /\ a >= q THEN At(V, a, j) ELSE At(M, a, b))
    /\ q' = q + 1 /\ j' = j + 1 /\ UNCHANGED <<A0, pc>>
Forwarded == pc = "forward" /\ (q > m \/ j > n) /\ pc' = "backward" /\ UNCHANGED <<A0, U, L, Q, P, q, j>>

\* row a is cleared at the leading entry of row i
Clear == \E i \in 1..m : \E a \in 1..i - 1 :
    /\ pc = "backward"
    /\ LET l == Lead(F, U, i)
       IN  /\ l # 0 /\ Nz(a, l)
           /\ U' = AddRow(F, U, i, a, FNeg(F, At(U, a, l)))
           /\ P' = AddRow(F, P, i, a, FNeg(F, At(U, a, l)))
    /\ UNCHANGED <<A0, L, Q, q, j, pc>>
Stop == pc = "backward" /\ IsReducedEchelon(F, U) /\ pc' = "done" /\ UNCHANGED <<A0, U, L, Q, P, q, j>>

Next == Skip \/ Pivot \/ Forwarded \/ Clear \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc = "done")

Factors ==
    pc = "forward" => /\ IsPermMat(F, Q)
                      /\ LowerTriangular(F, L) /\ (\A i \in 1..m : ~FIsZero(F, At(L, i, i)))
                      /\ MatMul(F, Q, A0) = MatMul(F, L, U)
Transforms == MatMul(F, P, A0) = U /\ RankOf(F, P) = m
Echelon == pc \in {"backward", "done"} => IsEchelon(F, U) /\ Cardinality({i \in 1..m : Lead(F, U, i) # 0}) = q - 1

Vecs(k) == [1..k -> 0..F - 1]
Image == {[i \in 1..m |-> Dot(F, RowOf(A0, i), v)] : v \in Vecs(n)}
KernelOf == {v \in Vecs(n) : \A i \in 1..m : Dot(F, RowOf(A0, i), v) = 0}
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Leads == {Lead(F, U, i) : i \in 1..m} \ {0}
RowWith(c) == CHOOSE i \in 1..m : Lead(F, U, i) = c
Kernel == {[k \in 1..n |-> IF k = f THEN FOne(F) ELSE IF k \in Leads THEN FNeg(F, At(U, RowWith(k), f)) ELSE FZero(F)] :
           f \in (1..n) \ Leads}
ImageBasis == {ColOf(A0, c) : c \in Leads}

\* where the pivot search finds nothing, all entries below are zero: the columns skipped stay
\* without a leading entry, and the rows after the last pivot are zero
Skipped ==
    pc = "forward" => /\ \A c \in 1..MinOf2(j - 1, n) : \A i \in q..m : ~Nz(i, c)
                      /\ \A i \in 1..q - 1 : Lead(F, U, i) \in 1..j - 1

SameForm ==
    pc = "done" =>
    /\ U = Rref(F, A0)
    /\ RankOf(F, A0) = RankOf(F, Transpose(A0))
    /\ RankOf(F, A0) <= MinOf2(m, n)
Bases ==
    pc = "done" =>
    /\ Cardinality(Kernel) = n - Cardinality(Leads) /\ Independent(F, n, Listed(Kernel))
    /\ \A v \in Kernel : \A i \in 1..m : FIsZero(F, Dot(F, RowOf(A0, i), v))
    /\ Kernel = KernelBasis(F, A0)
    /\ Cardinality(ImageBasis) = Cardinality(Leads) /\ Independent(F, m, Listed(ImageBasis))
    /\ \A c \in 1..n : RankOf(F, OfRows(m, Listed(ImageBasis) \o <<ColOf(A0, c)>>)) = Cardinality(Leads)
    /\ F # 0 => /\ Cardinality(KernelOf) = Pow(F, n - Cardinality(Leads))
                /\ Cardinality(Image) = Pow(F, Cardinality(Leads))
\* rank by minors: the largest k with a minor of that size that is not zero
ByMinors ==
    pc = "done" =>
    LET nzm(k) == \E rs \in Subseqs(1, m, k), cs \in Subseqs(1, n, k) : ~FIsZero(F, Det(F, SubMat(A0, rs, cs)))
    IN  \A k \in 1..MinOf2(m, n) : nzm(k) = (k <= Cardinality(Leads))

Typed(T, e) == e @@ [F |-> F, T |-> T]
Script(T) ==
    <<Typed(T, [op |-> "m.new", d |-> 0, m |-> A0]),
      Typed(T, [op |-> "l.lu", a |-> 0]), Typed(T, [op |-> "l.ech", a |-> 0]),
      Typed(T, [op |-> "l.rref", a |-> 0]), Typed(T, [op |-> "l.bases", a |-> 0]),
      Typed(T, [op |-> "l.zrows", a |-> 0])>>
    \o [k \in 1..m * n |-> Typed(T, [op |-> "l.piv", a |-> 0, i |-> (k - 1) \div n, j |-> (k - 1) % n])]
Replayed == (pc = "forward" /\ q = 1 /\ j = 1) => \A T \in Types : Emit(Script(T))
=============================================================================
