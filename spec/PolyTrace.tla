----------------------------- MODULE PolyTrace ------------------------------
(***************************************************************************)
(* Histories over registers that hold polynomials, and one that holds the  *)
(* generators of an ideal together with a Groebner basis the library       *)
(* computed for it.                                                        *)
(*   C07  results are clean            C08  ring arithmetic                *)
(*   C09  evaluation                   C10  division                       *)
(*   C11  leading terms, sorting, term division, lcm, S-polynomials        *)
(*   C12  the Groebner basis test      C13  reduced Groebner bases         *)
(*   C14  normal forms and membership                                      *)
(*                                                                         *)
(* Every line names its field (F) and the Rust type of the coefficients    *)
(* (T).  Polynomials are observed as lists of [coefficient, exponents] in  *)
(* stored order; the registers hold the functions they denote.             *)
(***************************************************************************)
EXTENDS TraceBase, PolyOps

NReg == 40
InitReg == [p |-> [i \in 0..(NReg - 1) |-> PZero], gens |-> <<>>, basis |-> <<>>]
SetP(reg, d, f) == [reg EXCEPT !.p[d] = f]

\* the value returned: the polynomial `want` (which gets `id` blamed if it is not), clean;
\* v is the list observed
Returned(e, reg, v, want, id, judged) ==
    IF ~UsableL(e.F, v) THEN DeadVerdict({}, reg)
    ELSE LET f == Abs(e.F, v)
             clean == CleanL(e.F, v)
             bad == Blame(~judged \/ f = want, id) \cup Blame(clean, "C07")
         IN  IF clean THEN Verdict(bad, SetP(reg, e.d, f)) ELSE DeadVerdict(bad, reg)

JudgeRing(e, reg) ==
    LET fs == Operands(e, reg)
        want == Exact(e, fs)
        judged == ExactFor(e, fs)
    IN  IF e.op = "p.div" /\ FIsZero(e.F, e.c) /\ ~IsFloat(e)
        THEN \* a non-zero polynomial has no quotient by zero; 0/0 may be either
             IF IsPanic(e) THEN Verdict({}, reg)
             ELSE IF fs[1] = PZero /\ IsVal(e) THEN Returned(e, reg, e.out.v, PZero, "C08", TRUE)
             ELSE DeadVerdict({"C08"}, reg)
        ELSE IF e.op \in {"p.mul", "p.tmul", "t.mul"} /\ ~MulFits(fs[1], fs[2]) /\ (IsPanic(e) \/ ~DegFits(want))
        THEN \* an exponent above 255 cannot be represented
             IF IsPanic(e) THEN Verdict({}, reg) ELSE DeadVerdict({"C08"}, reg)
        ELSE IF IsVal(e) THEN Returned(e, reg, e.out.v, want, "C08", judged)
        ELSE IF e.out.k = "nonfinite" THEN DeadVerdict({}, reg)
        ELSE IF IsPanic(e) THEN Verdict(Blame(~NoOverflow(e, fs), "C08"), reg)
        ELSE DeadVerdict({"C08"}, reg)

\* is it reported to be zero exactly if it has no terms; the number of terms
JudgeIsZero(e, reg) ==
    Verdict(Blame(/\ IsVal(e)
                  /\ e.out.v.zero = Bit(reg.p[e.a] = PZero)
                  /\ e.out.v.n = Cardinality(DOMAIN reg.p[e.a]), "C07"), reg)

\* predicates on terms with values s, t
JudgeTermObs(e, reg) ==
    LET F == e.F
        s == TermP(F, e.s)
        t == TermP(F, e.t)
        v == e.out.v
    IN  IF ~IsVal(e) THEN Verdict({"C08", "C11"}, reg)
        ELSE Verdict(Blame(v.eq = Bit(s = t) /\ v.zero = Bit(s = PZero), "C08")
                     \cup Blame(t # PZero => v.divides = Bit(s # PZero /\ MDivides(e.s[2], e.t[2])), "C11"), reg)

\* ------------------------------------------------------------ evaluation
JudgeEval(e, reg) ==
    LET F == e.F
        f == IF e.op = "t.eval" THEN TermP(F, e.t) ELSE reg.p[e.a]
        n == NVars(f)
    IN  IF Len(e.x) < n THEN Verdict(Blame(IsPanic(e), "C09"), reg)
        ELSE IF e.op = "t.eval" /\ f = PZero /\ Len(e.x) < Len(e.t[2]) /\ IsPanic(e)
        THEN \* a zero term that names a variable without a coordinate
             Verdict({}, reg)
        ELSE LET want == PEval(F, f, e.x)
                 \* small enough for any intermediate value (bounded by the driver)
                 tame == F # 0 \/ (/\ e.tame = 1
                                   /\ CoefBelow(0, want, T20, T20)
                                   /\ (IF e.T = "f32" THEN TameF32(f) ELSE Tame(0, f)))
             IN  IF IsVal(e)
                 THEN IF ~UsableC(F, e.out.v) THEN Verdict({}, reg)
                      ELSE Verdict(Blame((IsFloat(e) /\ ~tame) \/ NormC(F, e.out.v) = want, "C09"), reg)
                 ELSE IF e.out.k = "nonfinite" THEN Verdict({}, reg)
                 ELSE Verdict(Blame(IsPanic(e) /\ ~tame, "C09"), reg)

\* -------------------------------------------- leading terms and the like
JudgeSort(e, reg) ==
    LET f == reg.p[e.a]
        v == e.out.v
    IN  IF ~IsVal(e) THEN Verdict({"C11"}, reg)
        ELSE IF ~UsableL(e.F, v) THEN DeadVerdict({}, reg)
        ELSE Verdict(Blame(/\ Abs(e.F, v) = f
                           /\ Len(v) = Cardinality(DOMAIN f)
                           /\ \A i \in 1..(Len(v) - 1) : MCmp(e.ord, MTrim(v[i][2]), MTrim(v[i + 1][2])) < 0, "C11")
                     \cup Blame(CleanL(e.F, v), "C07"), reg)

\* leading term and coefficient, as lists of at most one
JudgeLead(e, reg) ==
    LET f == reg.p[e.a]
        v == e.out.v
    IN  IF ~IsVal(e) THEN Verdict({"C11"}, reg)
        ELSE IF ~UsableL(e.F, v.lt) \/ \E i \in 1..Len(v.lc) : ~UsableC(e.F, v.lc[i]) THEN DeadVerdict({}, reg)
        ELSE Verdict(Blame(IF f = PZero THEN v.lt = <<>> /\ v.lc = <<>>
                           ELSE /\ Len(v.lt) = 1 /\ Len(v.lc) = 1
                                /\ v.lt[1][2] = PLm(e.ord, f)
                                /\ NormC(e.F, v.lt[1][1]) = PLc(e.ord, f)
                                /\ NormC(e.F, v.lc[1]) = PLc(e.ord, f), "C11"), reg)

JudgeLcm(e, reg) ==
    LET F == e.F
        want == IF FIsZero(F, e.s[1]) \/ FIsZero(F, e.t[1]) THEN PZero ELSE PTerm(F, FOne(F), MLcm(e.s[2], e.t[2]))
    IN  IF ~IsVal(e) THEN Verdict({"C11"}, reg)
        ELSE IF ~UsableC(F, e.out.v[1]) THEN DeadVerdict({}, reg)
        ELSE Verdict(Blame(TermP(F, <<NormC(F, e.out.v[1]), MTrim(e.out.v[2])>>) = want, "C11")
                     \cup Blame(MIsCanonical(e.out.v[2]), "C07"), reg)

\* s / t: absent, or the term q with q t = s; the zero term is divisible by anything
\* (0/0, where both answers make sense, is not judged)
JudgeTryDiv(e, reg) ==
    LET F == e.F
        zs == FIsZero(F, e.s[1])
        zt == FIsZero(F, e.t[1])
        v == e.out.v
        judged == ExactFor(e, <<TermP(F, e.s), TermP(F, e.t)>>) /\ (IsFloat(e) => e.tame = 1)
    IN  IF e.out.k = "nonfinite" THEN Verdict(Blame(IsFloat(e), "C11"), reg)
        ELSE IF ~IsVal(e) THEN Verdict(Blame(IsPanic(e) /\ ~judged, "C11"), reg)
        ELSE IF \E i \in 1..Len(v) : ~UsableC(F, v[i][1]) THEN DeadVerdict({}, reg)
        ELSE Verdict(Blame(CASE zs /\ zt -> TRUE
                             [] zs -> Len(v) = 1 /\ FIsZero(F, v[1][1])
                             [] zt -> v = <<>>
                             [] ~MDivides(e.t[2], e.s[2]) -> v = <<>>
                             [] OTHER -> /\ Len(v) = 1
                                         /\ MTrim(v[1][2]) = MQuo(e.s[2], e.t[2])
                                         /\ judged => NormC(F, v[1][1]) = FDiv(F, e.s[1], e.t[1]), "C11")
                     \cup Blame(Len(v) = 1 => MIsCanonical(v[1][2]), "C07"), reg)

JudgeSPoly(e, reg) ==
    LET F == e.F
        f == reg.p[e.a]
        g == reg.p[e.b]
        v == e.out.v
    IN  IF e.out.k = "nonfinite" THEN Verdict({}, reg)
        ELSE IF f = PZero \/ g = PZero THEN Verdict(Blame(IsVal(e) /\ v = <<>>, "C11"), reg)
        ELSE LET lf == PLm(e.ord, f)
                 lg == PLm(e.ord, g)
                 lcm == MLcm(lf, lg)
             IN  IF ~IsVal(e)
                 THEN Verdict(Blame(IsPanic(e) /\ (~MulFits(f, (lcm :> 1)) \/ ~MulFits(g, (lcm :> 1)) \/ (F = 0 /\ ~(TameMul(F, f) /\ TameMul(F, g)))), "C11"), reg)
                 ELSE IF Len(v) # 1 THEN Verdict({"C11"}, reg)
                 ELSE IF ~UsableL(F, v[1]) THEN DeadVerdict({}, reg)
                 ELSE LET h == Abs(F, v[1])
                      IN  IF IsFloat(e) /\ ~(e.tame = 1 /\ ExactFor(e, <<f, g>>))
                          THEN \* up to rounding, but the leading terms cancel
                               Verdict(Blame(\A m \in DOMAIN h : MCmp(e.ord, m, lcm) < 0, "C11")
                                       \cup Blame(CleanL(F, v[1]), "C07"), reg)
                          ELSE Verdict(Blame(h = PSPoly(F, e.ord, f, g), "C11")
                                       \cup Blame(CleanL(F, v[1]), "C07"), reg)

\* -------------------------------------------------------------- division
\* every power product that occurs on the way has to be representable; with graded orders the
\* total degree bounds all exponents
DivFits(ord, f, gs) ==
    \/ ord \in {"grlex", "grevlex"} /\ \A m \in DOMAIN f : MTotal(m) <= MaxExp
    \/ \A h \in {f} \cup {gs[i] : i \in 1..Len(gs)} : \A m \in DOMAIN h : MTotal(m) <= 12

PMaxAbs(f) == FoldSet(LAMBDA m, acc : LET a == QAbs(f[m]) IN IF QCmp(a, acc) > 0 THEN a ELSE acc, QZero, DOMAIN f)

RECURSIVE MassFrom(_, _, _)
MassFrom(qs, gs, i) ==
    IF i > Len(qs) THEN QOne
    ELSE QAdd(QMul(QMul(PMaxAbs(qs[i]), PMaxAbs(gs[i])), QInt(1 + Cardinality(DOMAIN qs[i]))), MassFrom(qs, gs, i + 1))
Tolerance == QNorm(ZOne, ZPow(ZInt(2), 30))

JudgeDivide(e, reg) ==
    LET F == e.F
        f == reg.p[e.a]
        gs == RegSeq(reg, e.gs)
        v == e.out.v
    IN  IF IsVal(e)
        THEN IF ~UsableL(F, v.r) \/ \E i \in 1..Len(v.q) : ~UsableL(F, v.q[i]) THEN DeadVerdict({}, reg)
             ELSE LET r == Abs(F, v.r)
                      qs == [i \in 1..Len(v.q) |-> Abs(F, v.q[i])]
                      clean == CleanL(F, v.r) /\ \A i \in 1..Len(v.q) : CleanL(F, v.q[i])
                      shape == /\ Len(qs) = Len(gs)
                               /\ Irreducible(e.ord, r, gs)
                               /\ \A i \in 1..Len(qs) : qs[i] # PZero =>
                                     /\ gs[i] # PZero /\ f # PZero
                                     /\ MCmp(e.ord, MMul(PLm(e.ord, qs[i]), PLm(e.ord, gs[i])), PLm(e.ord, f)) <= 0
                               /\ r # PZero => f # PZero /\ MCmp(e.ord, PLm(e.ord, r), PLm(e.ord, f)) <= 0
                      inexact == IsFloat(e) /\ e.tame # 1
                      exact == \/ ~IsFloat(e)
                               \/ e.T = "f64" /\ \A i \in 1..Len(qs) : PBelow(0, qs[i], T16, T6) /\ Cardinality(DOMAIN qs[i]) <= 32
                      err == PSub(F, PAdd(F, Recombine(F, qs, gs, 1), r), f)
                      bad == Blame(/\ shape
                                   /\ IF inexact
                                      THEN QCmp(PMaxAbs(err), QMul(Tolerance, QAdd(PMaxAbs(f), MassFrom(qs, gs, 1)))) <= 0
                                      ELSE exact => err = PZero /\ qs = Quotients(F, e.ord, f, gs), "C10")
                             \cup Blame(clean, "C07")
                  IN  IF clean THEN Verdict(bad, SetP(reg, e.d, r)) ELSE DeadVerdict(bad, reg)
        ELSE IF e.out.k = "nonfinite" THEN Verdict({}, reg)
        ELSE IF IsPanic(e) THEN Verdict(Blame(~DivFits(e.ord, f, gs) \/ (e.T = "Rational" /\ e.out.m = "overflow"), "C10"), reg)
        ELSE DeadVerdict({"C10"}, reg)

\* -------------------------------------------------------- Groebner bases
NonZero(gs) == SelectSeq(gs, LAMBDA g : g # PZero)

JudgeCriterion(e, reg) ==
    LET gs == NonZero(RegSeq(reg, e.gs))
    IN  IF IsVal(e) THEN Verdict(Blame(e.out.v = Bit(IsGroebner(e.F, e.ord, gs)), "C12"), reg)
        ELSE IF IsPanic(e) THEN Verdict(Blame(e.T = "Rational" /\ e.out.m = "overflow", "C12"), reg)
        ELSE DeadVerdict({"C12"}, reg)

SeqOf(S) == FoldSet(LAMBDA x, acc : Append(acc, x), <<>>, S)

JudgeBasis(e, reg) ==
    LET F == e.F
        gs == RegSeq(reg, e.gs)
        v == e.out.v
    IN  IF IsVal(e)
        THEN IF \E i \in 1..Len(v) : ~UsableL(F, v[i]) THEN DeadVerdict({}, reg)
             ELSE LET want == ReducedGB(F, e.ord, gs)
                      got == {Abs(F, v[i]) : i \in 1..Len(v)}
                      clean == \A i \in 1..Len(v) : CleanL(F, v[i])
                      bad == Blame(got = want /\ Len(v) = Cardinality(want), "C13") \cup Blame(clean, "C07")
                      reg2 == [reg EXCEPT !.gens = gs, !.basis = SeqOf(want)]
                  IN  IF clean THEN Verdict(bad, reg2) ELSE DeadVerdict(bad, reg)
        ELSE IF IsPanic(e) THEN
             \* no basis to go on with
             DeadVerdict(Blame(e.T = "Rational" /\ e.out.m = "overflow", "C13"), reg)
        ELSE DeadVerdict({"C13"}, reg)

\* the remainder of a polynomial by (a permutation of) the basis the library computed: the unique
\* normal form modulo the ideal
JudgeNormalForm(e, reg) ==
    LET F == e.F
        f == reg.p[e.a]
        v == e.out.v
    IN  IF IsVal(e)
        THEN IF ~UsableL(F, v) THEN DeadVerdict({}, reg)
             ELSE LET r == Abs(F, v)
                      clean == CleanL(F, v)
                      bad == Blame(r = PRem(F, e.ord, f, reg.basis), "C14") \cup Blame(clean, "C07")
                  IN  IF clean THEN Verdict(bad, SetP(reg, e.d, r)) ELSE DeadVerdict(bad, reg)
        ELSE IF IsPanic(e) THEN
             Verdict(Blame(e.out.m = "overflow" /\ (e.T = "Rational" \/ ~DivFits(e.ord, f, reg.basis)), "C14"), reg)
        ELSE DeadVerdict({"C14"}, reg)

Judge(e, reg) ==
    CASE e.op = "p.obs"    -> JudgeIsZero(e, reg)
      [] e.op = "t.obs"    -> JudgeTermObs(e, reg)
      [] e.op \in {"p.eval", "t.eval"} -> JudgeEval(e, reg)
      [] e.op = "p.sort"   -> JudgeSort(e, reg)
      [] e.op = "p.lead"   -> JudgeLead(e, reg)
      [] e.op = "t.lcm"    -> JudgeLcm(e, reg)
      [] e.op = "t.div"    -> JudgeTryDiv(e, reg)
      [] e.op = "p.spoly"  -> JudgeSPoly(e, reg)
      [] e.op = "p.divide" -> JudgeDivide(e, reg)
      [] e.op = "g.crit"   -> JudgeCriterion(e, reg)
      [] e.op = "g.basis"  -> JudgeBasis(e, reg)
      [] e.op = "g.nf"     -> JudgeNormalForm(e, reg)
      [] OTHER -> JudgeRing(e, reg)

VARIABLES l, reg, bad, dead
vars == <<l, reg, bad, dead>>

Init == l \in Begins /\ reg = InitReg /\ bad = {} /\ dead = FALSE
Next ==
    /\ l < Len(Trace)
    /\ Trace[l + 1].op # "begin"
    /\ l' = l + 1
    /\ IF dead THEN bad' = {} /\ UNCHANGED <<reg, dead>>
       ELSE LET j == Judge(Trace[l + 1], reg)
            IN  bad' = j.bad /\ reg' = j.reg /\ dead' = j.dead
Spec == Init /\ [][Next]_vars
Conforms == Focus \notin bad
=============================================================================
