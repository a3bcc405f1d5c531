-------------------------------- MODULE Ideal --------------------------------
(***************************************************************************)
(* What an ideal is, independently of Groebner bases: the multiples of the *)
(* generators up to a total degree D span a vector space of members of the *)
(* ideal, which linear algebra decides (the rows of a Macaulay matrix).    *)
(***************************************************************************)
EXTENDS PolyOps

\* all monomials in n variables of total degree at most d
RECURSIVE ExpVecs(_, _)
ExpVecs(n, d) == IF n = 0 THEN {<<>>} ELSE UNION {{Append(v, k) : v \in ExpVecs(n - 1, d - k)} : k \in 0..d}
MonosUpTo(n, d) == {MTrim(v) : v \in ExpVecs(n, d)}

PDegree(f) == FoldSet(LAMBDA m, acc : MaxInt(MTotal(m), acc), 0, DOMAIN f)

\* B maps leading monomials to polynomials with that leading monomial, coefficient one
RECURSIVE LinReduce(_, _, _, _)
LinReduce(F, ord, f, B) ==
    IF f = PZero THEN f
    ELSE LET m == PLm(ord, f)
         IN  IF m \in DOMAIN B THEN LinReduce(F, ord, TLCEval(PSub(F, f, PScale(F, f[m], B[m]))), B) ELSE f
LinInsert(F, ord, f, B) ==
    LET r == LinReduce(F, ord, f, B)
    IN  IF r = PZero THEN B ELSE TLCEval((PLm(ord, r) :> PMonic(F, ord, r)) @@ B)

Multiples(F, gs, n, d) ==
    UNION {{PMulTerm(F, FOne(F), m, gs[i]) : m \in MonosUpTo(n, d - PDegree(gs[i]))} :
           i \in {j \in 1..Len(gs) : gs[j] # PZero /\ PDegree(gs[j]) <= d}}

\* echelon basis of the span of the multiples up to degree d
Macaulay(F, ord, gs, n, d) ==
    FoldSet(LAMBDA f, B : LinInsert(F, ord, f, B), <<>>, Multiples(F, gs, n, d))

InSpan(F, ord, f, B) == LinReduce(F, ord, f, B) = PZero
=============================================================================
