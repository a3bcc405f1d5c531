----------------------------- MODULE Polynomial -----------------------------
(***************************************************************************)
(* Multivariate polynomials over a field F (see Field), as functions from  *)
(* the finite set of monomials that occur to their non-zero coefficients.  *)
(* Equality of functions is equality of polynomials.                       *)
(***************************************************************************)
EXTENDS Field, Monomial, FiniteSets, FiniteSetsExt, TLC

PZero == <<>>                                  \* the function with empty domain
PTerm(F, c, m) == IF FIsZero(F, c) THEN PZero ELSE (m :> c)
PConst(F, c) == PTerm(F, c, MOne)
POne(F) == PConst(F, FOne(F))

PCoef(F, f, m) == IF m \in DOMAIN f THEN f[m] ELSE FZero(F)

\* drop the zero coefficients of g
LOCAL Clean(F, g) ==
    LET D == DOMAIN g
        N == {m \in D : ~FIsZero(F, g[m])}
    IN  IF N = D THEN g ELSE TLCEval([m \in N |-> g[m]])

PNeg(F, f) == TLCEval([m \in DOMAIN f |-> FNeg(F, f[m])])

PAdd(F, f, g) ==
    IF f = PZero THEN g ELSE IF g = PZero THEN f ELSE
    LET Df == DOMAIN f
        Dg == DOMAIN g
        h == TLCEval([m \in Df \cup Dg |->
                IF m \in Df THEN IF m \in Dg THEN FAdd(F, f[m], g[m]) ELSE f[m] ELSE g[m]])
    IN  Clean(F, h)

PSub(F, f, g) == PAdd(F, f, PNeg(F, g))

PScale(F, c, f) ==
    IF FIsZero(F, c) THEN PZero ELSE TLCEval([m \in DOMAIN f |-> FMul(F, c, f[m])])

\* c x^k f
PMulTerm(F, c, k, f) ==
    IF FIsZero(F, c) THEN PZero
    ELSE LET D == {MMul(k, m) : m \in DOMAIN f}
         IN  TLCEval([m \in D |-> FMul(F, c, f[MQuo(m, k)])])

PMul(F, f, g) ==
    FoldSet(LAMBDA m, acc : PAdd(F, acc, PMulTerm(F, f[m], m, g)), PZero, DOMAIN f)

RECURSIVE PSumSeq(_, _)
PSumSeq(F, s) == IF s = <<>> THEN PZero ELSE PAdd(F, s[1], PSumSeq(F, Tail(s)))

RECURSIVE PPow(_, _, _)
PPow(F, f, k) == IF k = 0 THEN POne(F) ELSE PMul(F, f, PPow(F, f, k - 1))

\* leading monomial / coefficient of f # 0
PLm(ord, f) ==
    LET D == DOMAIN f
    IN  FoldSet(LAMBDA m, acc : IF MCmp(ord, m, acc) > 0 THEN m ELSE acc,
                CHOOSE m \in D : TRUE, D)
PLc(ord, f) == f[PLm(ord, f)]
PMonic(F, ord, f) == PScale(F, FInv(F, PLc(ord, f)), f)
PDropLt(ord, f) == LET lm == PLm(ord, f) IN TLCEval([m \in DOMAIN f \ {lm} |-> f[m]])

\* the value of f at the point x, a sequence of field elements covering all variables of f
RECURSIVE MEval(_, _, _, _)
MEval(F, m, x, i) ==
    IF i > Len(m) THEN FOne(F) ELSE FMul(F, FPow(F, x[i], m[i]), MEval(F, m, x, i + 1))
PEval(F, f, x) ==
    FoldSet(LAMBDA m, acc : FAdd(F, acc, FMul(F, f[m], MEval(F, m, x, 1))), FZero(F), DOMAIN f)

(***************************************************************************)
(* Division (functional form of the machine in Division.tla): the first    *)
(* divisor, in order, whose leading monomial divides is used.              *)
(***************************************************************************)
FirstDivisor(ord, m, gs, lms) ==
    LET C == {i \in 1..Len(gs) : gs[i] # PZero /\ MDivides(lms[i], m)}
    IN  IF C = {} THEN 0 ELSE Min(C)

RECURSIVE PRemStep(_, _, _, _, _, _)
PRemStep(F, ord, f, gs, lms, r) ==
    IF f = PZero THEN r
    ELSE LET lm == PLm(ord, f)
             c  == f[lm]
             i  == FirstDivisor(ord, lm, gs, lms)
         IN  IF i = 0
             THEN PRemStep(F, ord, TLCEval([m \in DOMAIN f \ {lm} |-> f[m]]), gs, lms, TLCEval((lm :> c) @@ r))
             ELSE PRemStep(F, ord,
                           PSub(F, f, PMulTerm(F, FDiv(F, c, gs[i][lms[i]]), MQuo(lm, lms[i]), gs[i])),
                           gs, lms, r)

\* the remainder of f on division by the sequence gs
PRem(F, ord, f, gs) ==
    LET lms == TLCEval([i \in 1..Len(gs) |-> IF gs[i] = PZero THEN <<>> ELSE PLm(ord, gs[i])])
    IN  PRemStep(F, ord, f, gs, lms, PZero)

(***************************************************************************)
(* Groebner bases.  Bases are sequences of polynomials.                    *)
(***************************************************************************)
PSPoly(F, ord, f, g) ==
    LET lf == PLm(ord, f)
        lg == PLm(ord, g)
        l  == MLcm(lf, lg)
    IN  PSub(F, PMulTerm(F, FInv(F, f[lf]), MQuo(l, lf), f),
                PMulTerm(F, FInv(F, g[lg]), MQuo(l, lg), g))

Coprime(a, b) == \A i \in 1..MinInt(Len(a), Len(b)) : a[i] = 0 \/ b[i] = 0

\* Buchberger's criterion; S-polynomials of coprime leading monomials reduce to zero
IsGroebner(F, ord, G) ==
    \A i \in 1..Len(G) : \A j \in 1..(i - 1) :
        Coprime(PLm(ord, G[i]), PLm(ord, G[j])) \/ PRem(F, ord, PSPoly(F, ord, G[i], G[j]), G) = PZero

\* no leading monomial divides a term of another element; leading coefficients are one
IsReduced(F, ord, G) ==
    \A i \in 1..Len(G) :
        /\ G[i] # PZero
        /\ PLc(ord, G[i]) = FOne(F)
        /\ \A j \in 1..Len(G) : i # j => \A m \in DOMAIN G[i] : ~MDivides(PLm(ord, G[j]), m)

RemoveAt1(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* Buchberger's algorithm over a worklist of index pairs
RECURSIVE GbLoop(_, _, _, _)
GbLoop(F, ord, G, todo) ==
    IF todo = <<>> THEN G
    ELSE LET i == todo[1][1]
             j == todo[1][2]
         IN  IF Coprime(PLm(ord, G[i]), PLm(ord, G[j])) THEN GbLoop(F, ord, G, Tail(todo))
             ELSE LET r == PRem(F, ord, PSPoly(F, ord, G[i], G[j]), G)
                  IN  IF r = PZero THEN GbLoop(F, ord, G, Tail(todo))
                      ELSE GbLoop(F, ord, Append(G, PMonic(F, ord, r)),
                                  Tail(todo) \o [k \in 1..Len(G) |-> <<k, Len(G) + 1>>])

RECURSIVE PairSeq(_, _, _)
PairSeq(i, j, n) == IF i > n THEN <<>> ELSE IF j >= i THEN PairSeq(i + 1, 1, n) ELSE <<<<j, i>>>> \o PairSeq(i, j + 1, n)

RECURSIVE GbMinimize(_, _, _)
GbMinimize(ord, G, i) ==
    IF i > Len(G) THEN G
    ELSE IF \E j \in 1..Len(G) : j # i /\ MDivides(PLm(ord, G[j]), PLm(ord, G[i]))
         THEN GbMinimize(ord, RemoveAt1(G, i), i)
         ELSE GbMinimize(ord, G, i + 1)

RECURSIVE GbReduce(_, _, _, _)
GbReduce(F, ord, G, i) ==
    IF i > Len(G) THEN G
    ELSE LET lm == PLm(ord, G[i])
             tail == PRem(F, ord, PDropLt(ord, G[i]), RemoveAt1(G, i))
         IN  GbReduce(F, ord, [G EXCEPT ![i] = PMonic(F, ord, PAdd(F, (lm :> G[i][lm]), tail))], i + 1)

\* the reduced Groebner basis of the ideal generated by the non-zero elements of G, as a set
ReducedGB(F, ord, G) ==
    LET nz == SelectSeq(G, LAMBDA g : g # PZero)
        e  == TLCEval(GbLoop(F, ord, nz, PairSeq(1, 1, Len(nz))))
        r  == TLCEval(GbReduce(F, ord, TLCEval(GbMinimize(ord, e, 1)), 1))
    IN  {r[i] : i \in 1..Len(r)}

=============================================================================
