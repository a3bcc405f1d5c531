---------------------------- MODULE ConeMachine -----------------------------
(***************************************************************************)
(* A cone to which one generator after the other is added (C22).           *)
(*                                                                         *)
(* What the facets are is specified by supporting hyperplanes.  Here they  *)
(* are compared with the cone itself: a vector is in the cone iff it is a  *)
(* combination of independent generators with coefficients >= 0            *)
(* (Caratheodory), and that has to be the case iff it is in the span and   *)
(* on the right side of all facets.  No facet can be left out.             *)
(***************************************************************************)
EXTENDS Cone, Replay

CONSTANTS n, K, Coords, Types, Polygon   \* Polygon: cones over point sets in the plane at height 1
VARIABLES gs
vars == <<gs>>

Unit == {-1, 0, 1}
Mixed == {-1, 0, 2}
Half == {0, 1}
Vectors == IF Polygon THEN {v \in [1..n -> Coords \cup {1}] : v[1] = 1} ELSE [1..n -> Coords]
Neg(v) == [k \in 1..n |-> QNeg(v[k])]
Vec(v) == [k \in 1..n |-> QInt(v[k])]
Probes == {Vec(v) : v \in IF n = 2 THEN [1..n -> -2..2] ELSE [1..n -> -1..1]}

Init == gs = <<>>
\* of a point set, one order and its reverse
RECURSIVE Less(_, _, _)
Less(v, w, k) == k <= n /\ (QCmp(v[k], w[k]) < 0 \/ (v[k] = w[k] /\ Less(v, w, k + 1)))
Add == \E v \in Vectors :
    /\ Len(gs) < K
    /\ Polygon /\ gs # <<>> => Less(gs[Len(gs)], Vec(v), 1)
    /\ gs' = Append(gs, Vec(v))
Next == Add
Spec == Init /\ [][Next]_vars

\* the coefficients of v in the independent rows fs, if it is a combination of them
Solution(fs, v) ==
    LET k == Len(fs)
        M == MkMat(n, k + 1, LAMBDA i, c : IF c <= k THEN fs[c][i] ELSE v[i])
        R == Rref(0, M)
    IN  IF \E i \in 1..n : Lead(0, R, i) = k + 1 THEN <<>> ELSE <<[i \in 1..k |-> At(R, i, k + 1)]>>
InCone(v) ==
    \/ IsZeroSeq(0, v)
    \/ \E k \in 1..MinOf2(Len(gs), n) : \E s \in Subseqs(1, Len(gs), k) :
          LET fs == [i \in 1..k |-> gs[s[i]]]
          IN  Independent(0, n, fs) /\ LET c == Solution(fs, v) IN c # <<>> /\ \A i \in 1..k : QSgn(c[1][i]) >= 0

\* the normals of the facets, up to vectors orthogonal to the cone
Normals ==
    {w \in UNION {LET B == KernelBasis(0, OfRows(n, [i \in 1..Len(s) |-> gs[s[i]]])) IN B \cup {Neg(x) : x \in B} : s \in FacetSets(n, gs)} :
        Supports(w, gs)}
InSpan(v) == RankOf(0, OfRows(n, Append(gs, v))) = ConeDim(n, gs)
Described ==
    LET W == Normals
    IN  \A v \in Probes : InCone(v) = (InSpan(v) /\ \A w \in W : QSgn(Dot(0, w, v)) >= 0)
Convex == \A i \in 1..Len(gs) : InCone(gs[i])
Complement ==
    LET B == KernelBasis(0, OfRows(n, gs))
    IN  Cardinality(B) = n - ConeDim(n, gs) /\ \A w \in B : \A i \in 1..Len(gs) : Dot(0, w, gs[i]) = QZero
\* the cone is a subspace iff it has no facets
Linear == (FacetSets(n, gs) = {}) = (\A i \in 1..Len(gs) : InCone(Neg(gs[i])))
\* the order of the generators does not matter
Orderless ==
    LET rs == [i \in 1..Len(gs) |-> gs[Len(gs) + 1 - i]]
        sets(hs) == {{hs[s[k]] : k \in 1..Len(s)} : s \in FacetSets(n, hs)}
    IN  sets(gs) = sets(rs)

Replayed == gs # <<>> => \A T \in Types : Emit(
    <<[op |-> "c.cone", T |-> T, n |-> n, gs |-> gs],
      [op |-> "c.cone", T |-> T, n |-> n, gs |-> [i \in 1..Len(gs) |-> gs[Len(gs) + 1 - i]]]>>)
=============================================================================
