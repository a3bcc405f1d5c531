------------------------------- MODULE Linear -------------------------------
(***************************************************************************)
(* Matrices over a field, as records [r |-> rows, c |-> columns, e |->     *)
(* entries, row by row], and the notions linear algebra defines: products, *)
(* echelon forms, rank, kernels, facets of cones.                          *)
(***************************************************************************)
EXTENDS Field, FiniteSets, FiniteSetsExt, TLC
LOCAL INSTANCE SequencesExt

MkMat(m, n, f(_, _)) ==
    [r |-> m, c |-> n, e |-> TLCEval([k \in 1..(m * n) |-> f(((k - 1) \div n) + 1, ((k - 1) % n) + 1)])]
At(A, i, j) == A.e[(i - 1) * A.c + j]

IsMat(A) == A.r >= 0 /\ A.c >= 0 /\ Len(A.e) = A.r * A.c
SameShape(A, B) == A.r = B.r /\ A.c = B.c

RowOf(A, i) == [j \in 1..A.c |-> At(A, i, j)]
ColOf(A, j) == [i \in 1..A.r |-> At(A, i, j)]
ColVec(s) == [r |-> Len(s), c |-> 1, e |-> s]

IdMat(F, n) == MkMat(n, n, LAMBDA i, j : IF i = j THEN FOne(F) ELSE FZero(F))
ZeroMat(F, m, n) == MkMat(m, n, LAMBDA i, j : FZero(F))
Transpose(A) == MkMat(A.c, A.r, LAMBDA i, j : At(A, j, i))
MatAdd(F, A, B) == MkMat(A.r, A.c, LAMBDA i, j : FAdd(F, At(A, i, j), At(B, i, j)))
MatSub(F, A, B) == MkMat(A.r, A.c, LAMBDA i, j : FSub(F, At(A, i, j), At(B, i, j)))
MatScale(F, s, A) == MkMat(A.r, A.c, LAMBDA i, j : FMul(F, s, At(A, i, j)))

\* (folds rather than recursion: TLC is slow on deep recursion)
Dot(F, s, t) == FoldSet(LAMBDA k, acc : FAdd(F, acc, FMul(F, s[k], t[k])), FZero(F), 1..Len(s))

MatMul(F, A, B) ==
    MkMat(A.r, B.c, LAMBDA i, j : FoldSet(LAMBDA k, acc : FAdd(F, acc, FMul(F, At(A, i, k), At(B, k, j))), FZero(F), 1..A.c))

IsZeroSeq(F, s) == \A k \in 1..Len(s) : FIsZero(F, s[k])
IsZeroMat(F, A) == IsZeroSeq(F, A.e)

UpperTriangular(F, A) == \A i \in 1..A.r : \A j \in 1..A.c : j < i => FIsZero(F, At(A, i, j))
LowerTriangular(F, A) == \A i \in 1..A.r : \A j \in 1..A.c : j > i => FIsZero(F, At(A, i, j))

\* ------------------------------------------------------- row operations
SwapRows(A, a, b) == MkMat(A.r, A.c, LAMBDA i, j : At(A, IF i = a THEN b ELSE IF i = b THEN a ELSE i, j))
ScaleRow(F, A, a, s) == MkMat(A.r, A.c, LAMBDA i, j : IF i = a THEN FMul(F, s, At(A, i, j)) ELSE At(A, i, j))
\* s times row a is added to row b
AddRow(F, A, a, b, s) ==
    MkMat(A.r, A.c, LAMBDA i, j : IF i = b THEN FAdd(F, At(A, i, j), FMul(F, s, At(A, a, j))) ELSE At(A, i, j))

\* matrix of the row operation
ElemScale(F, n, a, s) == ScaleRow(F, IdMat(F, n), a, s)
ElemSwap(F, n, a, b)  == SwapRows(IdMat(F, n), a, b)
ElemAdd(F, n, a, b, s) == AddRow(F, IdMat(F, n), a, b, s)
\* row i of the product with A is row p[i] of A
PermMat(F, p) == MkMat(Len(p), Len(p), LAMBDA i, j : IF p[i] = j THEN FOne(F) ELSE FZero(F))

IsPermMat(F, P) ==
    /\ P.r = P.c
    /\ \A i \in 1..P.r : \A j \in 1..P.c : At(P, i, j) \in {FZero(F), FOne(F)}
    /\ \A i \in 1..P.r : Cardinality({j \in 1..P.c : At(P, i, j) = FOne(F)}) = 1
    /\ \A j \in 1..P.c : Cardinality({i \in 1..P.r : At(P, i, j) = FOne(F)}) = 1

\* --------------------------------------------------------- echelon forms
\* column of the first non-zero entry of row i, or 0
Lead(F, A, i) == LET S == {j \in 1..A.c : ~FIsZero(F, At(A, i, j))} IN IF S = {} THEN 0 ELSE Min(S)

\* leading entries move to the right and are one; zero rows are last
IsEchelon(F, A) ==
    \A i \in 1..A.r :
        LET l == Lead(F, A, i)
        IN  /\ l # 0 => At(A, i, l) = FOne(F)
            /\ i > 1 => LET k == Lead(F, A, i - 1) IN IF k = 0 THEN l = 0 ELSE l = 0 \/ l > k
IsReducedEchelon(F, A) ==
    /\ IsEchelon(F, A)
    /\ \A i \in 1..A.r : LET l == Lead(F, A, i)
                         IN  l # 0 => \A k \in 1..A.r : k # i => FIsZero(F, At(A, k, l))

\* The reduced row echelon form, by eliminating column after column: of the rows st.rows those up
\* to st.q are done
ClearColumn(F, st, j) ==
    LET q == st.q + 1
        S == {i \in q..Len(st.rows) : ~FIsZero(F, st.rows[i][j])}
    IN  IF S = {} THEN st
        ELSE LET p == Min(S)
                 inv == FInv(F, st.rows[p][j])
                 pivot == TLCEval([k \in DOMAIN st.rows[p] |-> FMul(F, inv, st.rows[p][k])])
                 Cleared(row) == IF FIsZero(F, row[j]) THEN row
                                 ELSE TLCEval([k \in DOMAIN row |-> FSub(F, row[k], FMul(F, row[j], pivot[k]))])
             IN  [q |-> q, rows |-> [i \in DOMAIN st.rows |->
                     IF i = q THEN pivot ELSE Cleared(st.rows[IF i = p THEN q ELSE i])]]   \* p and q change places
Rref(F, A) ==
    LET start == [q |-> 0, rows |-> [i \in 1..A.r |-> TLCEval(RowOf(A, i))]]
        end == FoldLeft(LAMBDA st, j : TLCEval(ClearColumn(F, st, j)), start, [j \in 1..A.c |-> j])
    IN  MkMat(A.r, A.c, LAMBDA i, j : end.rows[i][j])

RankOf(F, A) == LET B == Rref(F, A) IN Cardinality({i \in 1..B.r : Lead(F, B, i) # 0})

\* the matrix with the sequences of s as rows; n columns
OfRows(n, s) == MkMat(Len(s), n, LAMBDA i, j : s[i][j])
\* (the order of the columns does not matter; vectors of a kernel are mostly zero towards the end)
Independent(F, n, s) == RankOf(F, MkMat(Len(s), n, LAMBDA i, j : s[i][n + 1 - j])) = Len(s)

\* rows rs and columns cs (increasing sequences)
SubMat(A, rs, cs) == MkMat(Len(rs), Len(cs), LAMBDA i, j : At(A, rs[i], cs[j]))

RECURSIVE Det(_, _)
Det(F, A) ==
    IF A.r = 0 THEN FOne(F)
    ELSE FSum(F, [j \in 1..A.c |->
            IF FIsZero(F, At(A, 1, j)) THEN FZero(F)
            ELSE LET m == FMul(F, At(A, 1, j), Det(F, SubMat(A, [i \in 1..(A.r - 1) |-> i + 1],
                                                            [k \in 1..(A.c - 1) |-> IF k < j THEN k ELSE k + 1])))
                 IN  IF j % 2 = 1 THEN m ELSE FNeg(F, m)])

\* increasing sequences of k of the numbers a..n
RECURSIVE Subseqs(_, _, _)
Subseqs(a, n, k) ==
    IF k = 0 THEN {<<>>}
    ELSE UNION {{<<x>> \o t : t \in Subseqs(x + 1, n, k - 1)} : x \in a..n}

MinOf2(a, b) == IF a < b THEN a ELSE b

\* all minors of A
Minors(F, A) ==
    UNION {{Det(F, SubMat(A, rs, cs)) : rs \in Subseqs(1, A.r, k), cs \in Subseqs(1, A.c, k)} : k \in 1..MinOf2(A.r, A.c)}
=============================================================================
