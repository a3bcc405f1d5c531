------------------------------ MODULE MatTrace ------------------------------
(***************************************************************************)
(* Histories over registers that hold matrices.                            *)
(*   C15  matrix algebra and constructors                                  *)
(*   C16  row operations, elementary matrices, views                       *)
(*   C17  LU decomposition          C18  echelon forms, rank, nullity      *)
(*   C19  kernel and range bases    C24  pivot search, zero rows           *)
(***************************************************************************)
EXTENDS TraceBase, Linear

NReg == 6
InitReg == [i \in 0..(NReg - 1) |-> [r |-> 0, c |-> 0, e |-> <<>>]]
Bit(p) == IF p THEN 1 ELSE 0

T16 == ZPow(ZInt(2), 16)
Pow2 == {ZPow(ZInt(2), k) : k \in 0..60}
TwoTo(k) == IF k >= 0 THEN <<ZPow(ZInt(2), k), ZOne>> ELSE <<ZOne, ZPow(ZInt(2), -k)>>

UsableC(F, c) == F = 0 => c[2] # ZZero
NormC(F, c) == IF F = 0 THEN QNorm(c[1], c[2]) ELSE c
UsableM(F, A) == \A i \in 1..Len(A.e) : UsableC(F, A.e[i])
NormM(F, A) == [r |-> A.r, c |-> A.c, e |-> TLCEval([i \in 1..Len(A.e) |-> NormC(F, A.e[i])])]

CBelow(c, n, d) == ZLt(ZAbs(c[1]), n) /\ ZLt(c[2], d)
Below(A, n, d) == \A i \in 1..Len(A.e) : CBelow(A.e[i], ZInt(n), ZInt(d))

\* entries on which sums of a few products of two of them are exact / do not overflow, by type
TameM(T, A) ==
    CASE T = "f64" -> \A i \in 1..Len(A.e) : CBelow(A.e[i], T16, ZInt(65))
      [] T = "f32" -> Below(A, 256, 5)
      [] T = "Rational" -> Below(A, 64, 13) /\ Len(A.e) <= 25
      [] OTHER -> TRUE
TameC(T, c) == TameM(T, [r |-> 1, c |-> 1, e |-> <<c>>])

IsFloat(e) == e.T \in {"f64", "f32"}

\* ------------------------------------------------- results in a register
Operands(e, reg) ==
    CASE e.op \in {"m.add", "m.mul", "m.dot", "m.eps", "m.obs"} -> <<reg[e.a], reg[e.b]>>
      [] e.op \in {"m.scal", "r.scale", "r.add"} -> <<reg[e.a], ColVec(<<e.x>>)>>
      [] e.op \in {"m.frob"} -> <<reg[e.a]>>
      [] OTHER -> <<>>
Tame(e, reg) == LET o == Operands(e, reg) IN \A i \in 1..Len(o) : TameM(e.T, o[i])

IsCol(A) == A.c = 1
Want(e, reg) ==
    LET F == e.F IN
    CASE e.op = "m.new"   -> e.m
      [] e.op = "m.id"    -> IdMat(F, e.n)
      [] e.op = "m.zero"  -> ZeroMat(F, e.n, e.k)
      [] e.op = "m.e"     -> MkMat(e.n, 1, LAMBDA i, j : IF i = e.k + 1 THEN FOne(F) ELSE FZero(F))
      [] e.op = "m.iter"  -> ColVec(e.es)
      [] e.op = "m.rows"  -> OfRows(reg[e.as[1]].r, [i \in 1..Len(e.as) |-> reg[e.as[i]].e])
      [] e.op = "m.cols"  -> Transpose(OfRows(reg[e.as[1]].r, [i \in 1..Len(e.as) |-> reg[e.as[i]].e]))
      [] e.op = "m.copy"  -> reg[e.a]
      [] e.op = "m.add"   -> MatAdd(F, reg[e.a], reg[e.b])
      [] e.op = "m.mul"   -> MatMul(F, reg[e.a], reg[e.b])
      [] e.op = "m.scal"  -> MatScale(F, e.x, reg[e.a])
      [] e.op = "m.tr"    -> Transpose(reg[e.a])
      [] e.op = "m.set"   -> MkMat(reg[e.a].r, reg[e.a].c, LAMBDA i, j : IF i = e.i + 1 /\ j = e.j + 1 THEN e.x ELSE At(reg[e.a], i, j))
      [] e.op = "r.scale" -> ScaleRow(F, reg[e.a], e.i + 1, e.x)
      [] e.op = "r.swap"  -> SwapRows(reg[e.a], e.i + 1, e.j + 1)
      [] e.op = "r.add"   -> AddRow(F, reg[e.a], e.i + 1, e.j + 1, e.x)
      [] e.op = "e.scale" -> ElemScale(F, e.n, e.i + 1, e.x)
      [] e.op = "e.swap"  -> ElemSwap(F, e.n, e.i + 1, e.j + 1)
      [] e.op = "e.add"   -> ElemAdd(F, e.n, e.i + 1, e.j + 1, e.x)
      [] e.op = "e.perm"  -> PermMat(F, [i \in 1..Len(e.p) |-> e.p[i] + 1])
      [] e.op = "m.swap"  -> MkMat(reg[e.a].r, reg[e.a].c, LAMBDA i, j :
                                IF <<i, j>> = <<e.i + 1, e.j + 1>> THEN At(reg[e.a], e.k + 1, e.l + 1)
                                ELSE IF <<i, j>> = <<e.k + 1, e.l + 1>> THEN At(reg[e.a], e.i + 1, e.j + 1)
                                ELSE At(reg[e.a], i, j))
      [] e.op = "v.row"   -> ColVec(RowOf(reg[e.a], e.i + 1))
      [] e.op = "v.col"   -> ColVec(ColOf(reg[e.a], e.j + 1))
      [] e.op = "v.rowmut" -> MkMat(reg[e.a].r, reg[e.a].c, LAMBDA i, j : IF i = e.i + 1 THEN e.es[j] ELSE At(reg[e.a], i, j))
      [] e.op = "v.colmut" -> MkMat(reg[e.a].r, reg[e.a].c, LAMBDA i, j : IF j = e.j + 1 THEN e.es[i] ELSE At(reg[e.a], i, j))

Own(op) == IF op \in {"r.scale", "r.swap", "r.add", "e.scale", "e.swap", "e.add", "e.perm", "m.swap",
                      "v.row", "v.col", "v.rowmut", "v.colmut", "v.rowlist", "v.collist"} THEN "C16" ELSE "C15"

\* incompatible shapes?
BadShape(e, reg) ==
    CASE e.op \in {"m.add", "m.eps"} -> ~SameShape(reg[e.a], reg[e.b])
      [] e.op = "m.mul" -> reg[e.a].c # reg[e.b].r
      [] OTHER -> FALSE

JudgeResult(e, reg) ==
    LET id == Own(e.op)
    IN  IF BadShape(e, reg) THEN Verdict(Blame(IsPanic(e), id), reg)
        ELSE IF IsVal(e)
        THEN IF ~IsMat(e.out.v) THEN DeadVerdict({id}, reg)
             ELSE IF ~UsableM(e.F, e.out.v) THEN DeadVerdict({}, reg)
             ELSE LET got == NormM(e.F, e.out.v)
                      want == Want(e, reg)
                      judged == ~IsFloat(e) \/ Tame(e, reg)
                  IN  Verdict(Blame(SameShape(got, want) /\ (judged => got = want), id), [reg EXCEPT ![e.d] = got])
        ELSE IF e.out.k = "nonfinite" THEN Verdict(Blame(~Tame(e, reg), id), reg)
        ELSE Verdict(Blame(IsPanic(e) /\ ~Tame(e, reg), id), reg)

\* --------------------------------------------------------- observations
WantVal(e, reg) ==
    CASE e.op = "m.dot" -> Dot(e.F, reg[e.a].e, reg[e.b].e)
      [] e.op = "m.frob" -> Dot(e.F, reg[e.a].e, reg[e.a].e)

JudgeVal(e, reg) ==
    IF IsVal(e)
    THEN IF ~UsableC(e.F, e.out.v) THEN DeadVerdict({}, reg)
         ELSE Verdict(Blame((IsFloat(e) /\ ~Tame(e, reg)) \/ NormC(e.F, e.out.v) = WantVal(e, reg), "C15"), reg)
    ELSE Verdict(Blame(~Tame(e, reg), "C15"), reg)

JudgeGet(e, reg) ==
    LET x == At(reg[e.a], e.i + 1, e.j + 1)
    IN  Verdict(Blame(IsVal(e) /\ e.out.v = <<x, x>>, "C15"), reg)

JudgeList(e, reg) ==
    Verdict(Blame(IsVal(e) /\ e.out.v = (IF e.op = "v.rowlist" THEN RowOf(reg[e.a], e.i + 1) ELSE ColOf(reg[e.a], e.j + 1)), "C16"), reg)

JudgeObs(e, reg) ==
    LET A == reg[e.a]
        B == reg[e.b]
        v == e.out.v
    IN  Verdict(Blame(/\ IsVal(e)
                      /\ v.eq = Bit(A = B)
                      /\ v.up = Bit(UpperTriangular(e.F, A))
                      /\ v.low = Bit(LowerTriangular(e.F, A))
                      /\ v.idx = [k \in 1..(A.r * A.c) |-> <<(k - 1) \div A.c, (k - 1) % A.c>>], "C15"), reg)

\* approximate equality, over the ordered fields: true of equal ones, false of ones that
\* differ by more than rounding could explain
JudgeEps(e, reg) ==
    IF BadShape(e, reg) THEN Verdict(Blame(IsPanic(e), "C15"), reg)
    ELSE Verdict(Blame((e.F = 0 /\ Tame(e, reg)) => IsVal(e) /\ e.out.v = Bit(reg[e.a] = reg[e.b]), "C15"), reg)

JudgeEpsScalar(e, reg) ==
    LET d == QAbs(QSub(e.x, e.y))
        far == CASE e.T = "f64" -> TwoTo(-24) [] e.T = "f32" -> TwoTo(-10) [] OTHER -> d
        near == CASE e.T = "f64" -> TwoTo(-60) [] e.T = "f32" -> TwoTo(-30) [] OTHER -> QZero
    IN  Verdict(Blame(IsVal(e) /\ (CASE QCmp(d, near) <= 0 -> e.out.v = 1
                                     [] QCmp(d, far) >= 0 -> e.out.v = 0
                                     [] OTHER -> TRUE), "C15"), reg)

\* ----------------------------------------------------------- elimination
(***************************************************************************)
(* When is a result determined exactly?  Over exact fields, and over       *)
(* floats if every minor of the matrix is zero or a power of two: all      *)
(* numbers elimination meets, whatever pivots it chooses, are quotients of *)
(* minors.                                                                 *)
(***************************************************************************)
DyadicMinors(A) ==
    /\ A.r <= 5 /\ A.c <= 5
    /\ Below(A, 65, 65)
    /\ \A i \in 1..Len(A.e) : ZAbs(A.e[i][1]) \in Pow2 \cup {ZZero} /\ A.e[i][2] \in Pow2
    /\ \A q \in Minors(0, A) : q = QZero \/ (ZAbs(q[1]) \in Pow2 /\ q[2] \in Pow2 /\ CBelow(q, ZPow(ZInt(2), 12), ZPow(ZInt(2), 12)))
Exact(e, A) == ~IsFloat(e) \/ DyadicMinors(A)

FirstCols(A, k) == SubMat(A, [i \in 1..A.r |-> i], [j \in 1..k |-> j])
\* matrices no rounding can take for singular: the first columns have full rank
Regular(e, A) ==
    /\ e.T = "f64"
    /\ \/ A.r <= 5 /\ A.c <= 5 /\ Below(A, 17, 2)
       \/ A.r <= 3 /\ A.c <= 3 /\ Below(A, 100, 2)
    /\ \A k \in 1..A.c : RankOf(0, FirstCols(A, k)) = MinOf2(k, A.r)

(***************************************************************************)
(* Square float matrices far from singular, possibly with entries of very  *)
(* different magnitude: a pivot of nearly the greatest magnitude keeps the *)
(* errors at the size of the entries, another one need not.                *)
(***************************************************************************)
Eps(T) == IF T = "f64" THEN TwoTo(-52) ELSE TwoTo(-23)
Tol(T) == IF T = "f64" THEN TwoTo(-24) ELSE TwoTo(-8)
MaxAbs(A) == FoldSet(LAMBDA i, acc : LET q == QAbs(A.e[i]) IN IF QCmp(q, acc) > 0 THEN q ELSE acc, QZero, 1..Len(A.e))
Moderate(A) == \A i \in 1..Len(A.e) : A.e[i] = QZero \/ (QCmp(QAbs(A.e[i]), TwoTo(30)) <= 0 /\ QCmp(QAbs(A.e[i]), TwoTo(-60)) >= 0)
Wide(A, B) == MkMat(A.r, A.c + B.c, LAMBDA i, k : IF k <= A.c THEN At(A, i, k) ELSE At(B, i, k - A.c))
MatInverse(A) == LET R == Rref(0, Wide(A, IdMat(0, A.r))) IN MkMat(A.r, A.r, LAMBDA i, k : At(R, i, k + A.r))
WellConditioned(e, A) ==
    /\ IsFloat(e) /\ A.r = A.c /\ A.r \in 1..4 /\ Moderate(A)
    /\ RankOf(0, A) = A.r
    /\ LET inv == MaxAbs(MatInverse(A))
           bits == IF e.T = "f64" THEN 12 ELSE 5
       IN  /\ QCmp(inv, TwoTo(IF e.T = "f64" THEN 20 ELSE 8)) <= 0
           /\ QCmp(QMul(inv, MaxAbs(A)), TwoTo(bits)) <= 0
Judged(e, A) == Exact(e, A) \/ Regular(e, A) \/ WellConditioned(e, A)

\* too small for i64 arithmetic to overflow, whatever the pivots
Small(e, A) ==
    CASE e.T = "Rational" -> Below(A, 5, 2) /\ A.r <= 4 /\ A.c <= 4
      [] OTHER -> TRUE

Within(A, B, bound) == SameShape(A, B) /\ QCmp(MaxAbs(MatSub(0, A, B)), bound) <= 0
Close(T, A, B, scale) == Within(A, B, QMul(Tol(T), QAdd(QOne, scale)))

ShapeOK(A, m, n) == IsMat(A) /\ A.r = m /\ A.c = n

JudgeLU(e, reg) ==
    LET F == e.F
        A == reg[e.a]
        v == e.out.v
    IN  IF IsVal(e)
        THEN IF ~(ShapeOK(v.p, A.r, A.r) /\ ShapeOK(v.l, A.r, A.r) /\ ShapeOK(v.u, A.r, A.c)) THEN Verdict({"C17"}, reg)
             ELSE IF ~(UsableM(F, v.p) /\ UsableM(F, v.l) /\ UsableM(F, v.u)) THEN DeadVerdict({}, reg)
             ELSE LET P == NormM(F, v.p)
                      L == NormM(F, v.l)
                      U == NormM(F, v.u)
                      ex == Exact(e, A)
                      judged == Judged(e, A)
                  IN  Verdict(Blame(/\ IsPermMat(F, P)
                                    /\ LowerTriangular(F, L)
                                    /\ \A i \in 1..A.r : ~FIsZero(F, At(L, i, i))
                                    /\ judged => IsEchelon(F, U)
                                    /\ LET PA == MatMul(F, P, A)
                                           LU == MatMul(F, L, U)
                                       IN  IF ex THEN PA = LU
                                           \* with pivots of greatest magnitude, the error is that of the entries
                                           ELSE A.r <= 5 /\ A.c <= 5 => Within(PA, LU, QAdd(QMul(QInt(8), Eps(e.T)), QMul(Tol(e.T), MaxAbs(A)))), "C17"), reg)
        ELSE IF e.out.k = "nonfinite" THEN Verdict(Blame(~Judged(e, A), "C17"), reg)
        ELSE Verdict(Blame(IsPanic(e) /\ ~Small(e, A), "C17"), reg)

\* the echelon form (e.op = "l.ech") or reduced echelon form ("l.rref"), its transformation matrix
\* (both, where the hooks let the driver see them, as a list of one), the rank and nullity
FormOK(e, A, v, ex) ==
    LET F == e.F
        rk == RankOf(F, A)
    IN  /\ v.rank = rk
        /\ v.nullity = A.c - rk
        /\ \A i \in 1..Len(v.b) :
              LET P == NormM(F, v.p[i])
                  B == NormM(F, v.b[i])
              IN  /\ IF e.op = "l.rref" THEN IsReducedEchelon(F, B) ELSE IsEchelon(F, B)
                  /\ RankOf(F, P) = A.r
                  /\ IF ex THEN MatMul(F, P, A) = B
                     ELSE Close(e.T, MatMul(F, P, A), B, QMul(MaxAbs(P), MaxAbs(A)))
                  /\ e.op = "l.rref" => IF ex THEN B = Rref(F, A)
                                        ELSE LET R == Rref(F, A) IN Close(e.T, B, R, QMul(QInt(64), MaxAbs(R)))

FormUsable(e, A, v) ==
    \A i \in 1..Len(v.b) : ShapeOK(v.p[i], A.r, A.r) /\ ShapeOK(v.b[i], A.r, A.c)

JudgeForm(e, reg) ==
    LET F == e.F
        A == reg[e.a]
        v == e.out.v
    IN  IF IsVal(e)
        THEN IF ~FormUsable(e, A, v) THEN Verdict({"C18"}, reg)
             ELSE IF \E i \in 1..Len(v.b) : ~(UsableM(F, v.p[i]) /\ UsableM(F, v.b[i])) THEN DeadVerdict({}, reg)
             ELSE LET ex == Exact(e, A)
                  IN  Verdict(Blame(/\ v.rank <= MinOf2(A.r, A.c) /\ v.nullity = A.c - v.rank
                                    /\ Judged(e, A) => FormOK(e, A, v, ex), "C18"), reg)
        ELSE IF e.out.k = "nonfinite" THEN Verdict(Blame(~Judged(e, A), "C18"), reg)
        ELSE Verdict(Blame(IsPanic(e) /\ ~Small(e, A), "C18"), reg)

JudgeBases(e, reg) ==
    LET F == e.F
        A == reg[e.a]
        v == e.out.v
    IN  IF IsVal(e)
        THEN IF \E i \in 1..Len(v.ker) : ~ShapeOK(v.ker[i], A.c, 1) THEN Verdict({"C19"}, reg)
             ELSE IF \E i \in 1..Len(v.ran) : ~ShapeOK(v.ran[i], A.r, 1) THEN Verdict({"C19"}, reg)
             ELSE IF \E i \in 1..Len(v.ker) : ~UsableM(F, v.ker[i]) THEN DeadVerdict({}, reg)
             ELSE IF \E i \in 1..Len(v.ran) : ~UsableM(F, v.ran[i]) THEN DeadVerdict({}, reg)
             ELSE LET ex == Exact(e, A)
                      rk == RankOf(F, A)
                      K == [i \in 1..Len(v.ker) |-> NormM(F, v.ker[i])]
                      R == [i \in 1..Len(v.ran) |-> NormM(F, v.ran[i])]
                  IN  Verdict(Blame(Judged(e, A) =>
                          /\ Len(K) = A.c - rk
                          /\ Independent(F, A.c, [i \in 1..Len(K) |-> K[i].e])
                          /\ \A i \in 1..Len(K) :
                                LET AK == MatMul(F, A, K[i])
                                IN  IF ex THEN IsZeroMat(F, AK)
                                    ELSE Close(e.T, AK, ZeroMat(F, A.r, 1), QMul(MaxAbs(A), MaxAbs(K[i])))
                          /\ Len(R) = rk
                          /\ \A i \in 1..Len(R) : \E j \in 1..A.c : R[i].e = ColOf(A, j)
                          /\ Independent(F, A.r, [i \in 1..Len(R) |-> R[i].e]), "C19"), reg)
        ELSE IF e.out.k = "nonfinite" THEN Verdict(Blame(~Judged(e, A), "C19"), reg)
        ELSE Verdict(Blame(IsPanic(e) /\ ~Small(e, A), "C19"), reg)

\* --------------------------------------------- pivot search, zero rows
\* is the entry zero, up to approximate equality over floats?
Vanishes(e, x) == IF IsFloat(e) THEN QCmp(QAbs(x), Eps(e.T)) < 0 ELSE FIsZero(e.F, x)

\* the column e.j from row e.i on; a row (from 0) and its entry, as a list of at most one
JudgePivot(e, reg) ==
    LET A == reg[e.a]
        v == e.out.v
        rows == (e.i + 1)..A.r
        none == \A i \in rows : Vanishes(e, At(A, i, e.j + 1))
    IN  Verdict(Blame(/\ IsVal(e)
                      /\ IF none THEN v = <<>>
                         ELSE /\ Len(v) = 1
                              /\ v[1][1] + 1 \in rows
                              /\ v[1][2] = At(A, v[1][1] + 1, e.j + 1)
                              /\ ~Vanishes(e, v[1][2])
                              /\ IsFloat(e) => \A i \in rows : QCmp(QAbs(v[1][2]), QAbs(At(A, i, e.j + 1))) >= 0, "C24"), reg)

JudgeZeroRows(e, reg) ==
    LET A == reg[e.a]
    IN  Verdict(Blame(/\ IsVal(e)
                      /\ e.out.v = Cardinality({i \in 1..A.r : \A k \in 1..A.c : Vanishes(e, At(A, i, k))}), "C24"), reg)

Judge(e, reg) ==
    CASE e.op \in {"m.dot", "m.frob"} -> JudgeVal(e, reg)
      [] e.op = "m.get"  -> JudgeGet(e, reg)
      [] e.op = "m.obs"  -> JudgeObs(e, reg)
      [] e.op = "m.eps"  -> JudgeEps(e, reg)
      [] e.op = "f.eps"  -> JudgeEpsScalar(e, reg)
      [] e.op \in {"v.rowlist", "v.collist"} -> JudgeList(e, reg)
      [] e.op = "l.lu"   -> JudgeLU(e, reg)
      [] e.op \in {"l.ech", "l.rref"} -> JudgeForm(e, reg)
      [] e.op = "l.bases" -> JudgeBases(e, reg)
      [] e.op = "l.piv"  -> JudgePivot(e, reg)
      [] e.op = "l.zrows" -> JudgeZeroRows(e, reg)
      [] OTHER -> JudgeResult(e, reg)

VARIABLES l, reg, bad, dead
vars == <<l, reg, bad, dead>>

Init == l \in Begins /\ reg = InitReg /\ bad = {} /\ dead = FALSE
Next ==
    /\ l < Len(Trace)
    /\ Trace[l + 1].op # "begin"
    /\ l' = l + 1
    /\ IF dead THEN bad' = {} /\ UNCHANGED <<reg, dead>>
       ELSE LET j == Judge(Trace[l + 1], reg)
            IN  bad' = j.bad /\ reg' = j.reg /\ dead' = j.dead
Spec == Init /\ [][Next]_vars
Conforms == Focus \notin bad
=============================================================================
