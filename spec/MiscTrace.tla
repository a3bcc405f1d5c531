----------------------------- MODULE MiscTrace ------------------------------
(***************************************************************************)
(* Calls that are judged one by one.                                       *)
(*   C20  enumeration helpers      C21  rendered text                      *)
(*   C22  facets of a cone                                                 *)
(***************************************************************************)
EXTENDS TraceBase, Render, Cone

Bit(p) == IF p THEN 1 ELSE 0
NormC(F, c) == IF F = 0 THEN QNorm(c[1], c[2]) ELSE c
UsableC(F, c) == F = 0 => c[2] # ZZero

\* ------------------------------------------------------------------- C20
BoxOK(m, n, v) == v = [k \in 1..(m * n) |-> <<(k - 1) \div n, (k - 1) % n>>]

\* the digits of z in base b, least significant first
RECURSIVE DigitsOf(_, _)
DigitsOf(z, b) == IF z = ZZero THEN <<>> ELSE <<ZRem(z, b)>> \o DigitsOf(ZQuo(z, b), b)

\* the matrices with m n entries from the sequence vals: in the k-th (from 0) entry i (from 0) is
\* the value whose index (from 0) is digit i of k
RECURSIVE IntPow(_, _)
IntPow(a, k) == IF k = 0 THEN 1 ELSE a * IntPow(a, k - 1)
MatsOK(e, v) ==
    LET cells == e.m * e.n
        q == Len(e.vals)
        total == IntPow(q, cells)
    IN  /\ Len(v) = total
        /\ \A k \in 1..total :
              /\ v[k].r = e.m /\ v[k].c = e.n /\ Len(v[k].e) = cells
              /\ \A i \in 1..cells : v[k].e[i] = e.vals[(((k - 1) \div IntPow(q, i - 1)) % q) + 1]

MaxOK(s, i) == i >= 0 /\ i < Len(s) /\ \A k \in 1..Len(s) : s[k] <= s[i + 1]

JudgeHelper(e) ==
    Blame(/\ IsVal(e)
          /\ CASE e.op = "u.box" -> BoxOK(e.m, e.n, e.out.v)
               [] e.op = "u.digits" -> e.out.v = DigitsOf(e.n, e.b)
               [] e.op = "u.mats" -> MatsOK(e, e.out.v)
               [] e.op = "u.max" -> MaxOK(e.s, e.out.v), "C20")

\* ------------------------------------------------------------------- C21
TermsUsable(ts) == \A i \in 1..Len(ts) : UsableC(0, ts[i][1])
NormT(F, t) == <<NormC(F, t[1]), MTrim(t[2])>>

TextOf(e) ==
    CASE e.op = "d.int"  -> ZText(e.x)
      [] e.op = "d.rat"  -> QText(NormC(0, e.x))
      [] e.op = "d.mono" -> MonoText(e.m)
      [] e.op = "d.term" -> TermText(e.F, e.T, NormT(e.F, e.t))
      [] e.op = "d.poly" -> PolyText(e.T, [i \in 1..Len(e.ts) |-> NormT(0, e.ts[i])])
      [] e.op = "d.mat"  -> MatText(e.F, e.T, e.m)

JudgeText(e) == Blame(IsVal(e) /\ e.out.v = TextOf(e), "C21")

\* ------------------------------------------------------------------- C22
Pow2 == {ZPow(ZInt(2), k) : k \in 0..20}
Dyadic(q) == q = QZero \/ (ZAbs(q[1]) \in Pow2 /\ q[2] \in Pow2)
SmallInt(q, n) == q[2] = ZOne /\ ZLt(ZAbs(q[1]), ZInt(n))

\* floats: all minors are zero or powers of two, so that arithmetic is exact (see MatTrace)
JudgedCone(e) ==
    /\ \A i \in 1..Len(e.gs) : \A k \in 1..Len(e.gs[i]) : SmallInt(e.gs[i][k], 9)
    /\ e.T = "Rational" \/ \A q \in Minors(0, OfRows(e.n, e.gs)) : Dyadic(q)

UsableVecs(s) == \A i \in 1..Len(s) : \A k \in 1..Len(s[i]) : UsableC(0, s[i][k])
NormV(v) == [k \in 1..Len(v) |-> NormC(0, v[k])]
NormVs(s) == [i \in 1..Len(s) |-> NormV(s[i])]

JudgeCone(e) ==
    IF ~JudgedCone(e) THEN {}
    ELSE IF ~IsVal(e) THEN {"C22"}
    ELSE IF e.out.v.seen = 0 THEN {}         \* built without the hooks: nothing to see
    ELSE LET v == e.out.v
             gs == NormVs(e.gs)
         IN  IF ~(UsableVecs(v.comp) /\ \A i \in 1..Len(v.facets) : UsableVecs(<<v.facets[i].n>>) /\ UsableVecs(v.facets[i].g))
             THEN {}
             ELSE Blame(/\ v.ambient = e.n
                        /\ ConeOK(e.n, gs, v.dim,
                                  [i \in 1..Len(v.facets) |-> [n |-> NormV(v.facets[i].n), g |-> NormVs(v.facets[i].g)]],
                                  NormVs(v.comp)), "C22")

Judge(e) ==
    CASE e.op \in {"u.box", "u.digits", "u.mats", "u.max"} -> JudgeHelper(e)
      [] e.op = "c.cone" -> JudgeCone(e)
      [] OTHER -> JudgeText(e)

VARIABLES l, bad
vars == <<l, bad>>

Init == l \in Begins /\ bad = {}
Next ==
    /\ l < Len(Trace)
    /\ Trace[l + 1].op # "begin"
    /\ l' = l + 1
    /\ bad' = Judge(Trace[l + 1])
Spec == Init /\ [][Next]_vars
Conforms == Focus \notin bad
=============================================================================
