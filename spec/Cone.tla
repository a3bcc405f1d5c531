-------------------------------- MODULE Cone --------------------------------
(***************************************************************************)
(* Facets of the cone generated by vectors, over the rationals.            *)
(***************************************************************************)
EXTENDS Linear

\* a basis of the vectors the matrix maps to zero
KernelBasis(F, A) ==
    LET B == Rref(F, A)
        leads == {Lead(F, B, i) : i \in 1..B.r} \ {0}
        row(c) == CHOOSE i \in 1..B.r : Lead(F, B, i) = c
    IN  {[j \in 1..A.c |-> IF j = f THEN FOne(F)
                           ELSE IF j \in leads THEN FNeg(F, At(B, row(j), f)) ELSE FZero(F)] :
         f \in (1..A.c) \ leads}

\* vectors are sequences of length n
ConeDim(n, gs) == RankOf(0, OfRows(n, gs))

\* v is the normal of a supporting hyperplane that does not contain the cone
Supports(v, gs) ==
    /\ \A i \in 1..Len(gs) : QSgn(Dot(0, v, gs[i])) >= 0
    /\ \E i \in 1..Len(gs) : QSgn(Dot(0, v, gs[i])) > 0

\* do the generators fs (independent, one less than the dimension) span a facet?  Their
\* orthogonal complement is that of the cone and one line more.
SpansFacet(n, gs, fs) ==
    \E v \in KernelBasis(0, OfRows(n, fs)) : Supports(v, gs) \/ Supports([k \in 1..n |-> QNeg(v[k])], gs)

\* index sets, as increasing sequences, of generators that span a facet
FacetSets(n, gs) ==
    LET d == ConeDim(n, gs)
    IN  IF d = 0 THEN {}
        ELSE {s \in Subseqs(1, Len(gs), d - 1) :
                LET fs == [i \in 1..(d - 1) |-> gs[s[i]]]
                IN  Independent(0, n, fs) /\ SpansFacet(n, gs, fs)}

\* a reported facet: normal and generators
FacetOK(n, gs, normal, fs) ==
    /\ Len(normal) = n
    /\ Supports(normal, gs)
    /\ Len(fs) = ConeDim(n, gs) - 1
    /\ \A i \in 1..Len(fs) : (\E j \in 1..Len(gs) : fs[i] = gs[j]) /\ Dot(0, normal, fs[i]) = QZero
    /\ Independent(0, n, fs)

ComplementOK(n, gs, cs) ==
    /\ \A i \in 1..Len(cs) : Len(cs[i]) = n /\ \A j \in 1..Len(gs) : Dot(0, cs[i], gs[j]) = QZero
    /\ Len(cs) = n - ConeDim(n, gs)
    /\ Independent(0, n, cs)

SetOfSeq(s) == {s[i] : i \in 1..Len(s)}

ConeOK(n, gs, dim, facets, comp) ==
    /\ dim = ConeDim(n, gs)
    /\ ComplementOK(n, gs, comp)
    /\ \A i \in 1..Len(facets) : FacetOK(n, gs, facets[i].n, facets[i].g)
    /\ \A s \in FacetSets(n, gs) : \E i \in 1..Len(facets) : SetOfSeq(facets[i].g) = {gs[s[k]] : k \in 1..Len(s)}
=============================================================================
