----------------------------- MODULE MonoTrace ------------------------------
(***************************************************************************)
(* Histories of operations on multidegree registers, and comparisons of    *)
(* monomials.                                                              *)
(*   C05  multidegrees: canonical free commutative monoid with division    *)
(*   C06  monomial orders                                                  *)
(***************************************************************************)
EXTENDS TraceBase, Monomial

NReg == 6
InitReg == [i \in 0..(NReg - 1) |-> MOne]
MaxExp == 255

Fits(m) == \A i \in 1..Len(m) : m[i] <= MaxExp
Bit(p) == IF p THEN 1 ELSE 0

\* a call that has to return the monomial m, or to panic if m is not representable
JudgeResult(e, reg, m) ==
    IF ~Fits(m) THEN Verdict(Blame(IsPanic(e), "C05"), reg)
    ELSE IF IsVal(e)
    THEN \* go on with what was returned, trimmed: m unless blamed
         Verdict(Blame(e.out.v = m, "C05"), [reg EXCEPT ![e.d] = MTrim(e.out.v)])
    ELSE Verdict({"C05"}, reg)

JudgeSub(e, reg) ==
    LET a == reg[e.a]
        b == reg[e.b]
        want == IF MDivides(b, a) THEN <<MQuo(a, b)>> ELSE <<>>
    IN  IF IsVal(e) THEN Verdict(Blame(e.out.v = want, "C05"),
                                 IF e.out.v = <<>> THEN reg ELSE [reg EXCEPT ![e.d] = MTrim(e.out.v[1])])
        ELSE Verdict({"C05"}, reg)

JudgeObs(e, reg) ==
    LET a == reg[e.a]
        b == reg[e.b]
        v == e.out.v
    IN  Verdict(Blame(/\ IsVal(e)
                      /\ v.succ = Bit(MDivides(a, b))
                      /\ v.eq = Bit(a = b)
                      /\ v.len = Len(a)
                      /\ v.zero = Bit(a = MOne)
                      /\ v.degs = a, "C05"), reg)

JudgeTotal(e, reg) ==
    LET t == MTotal(reg[e.a])
    IN  IF t > MaxExp THEN Verdict(Blame(IsPanic(e), "C05"), reg)
        ELSE Verdict(Blame(IsVal(e) /\ e.out.v = t, "C05"), reg)

JudgeCmp(e, reg) ==
    LET v == e.out.v
    IN  Verdict(Blame(/\ IsVal(e)
                      /\ v.lex = CmpLex(e.a, e.b)
                      /\ v.revlex = CmpRevLex(e.a, e.b)
                      /\ v.grlex = CmpGrLex(e.a, e.b)
                      /\ v.grevlex = CmpGRevLex(e.a, e.b)
                      /\ v.grad = CmpGrad(e.a, e.b), "C06"), reg)

Judge(e, reg) ==
    CASE e.op = "m.new"   -> JudgeResult(e, reg, MTrim(e.raw))
      [] e.op = "m.trim"  -> JudgeResult(e, reg, MTrim(e.raw))
      [] e.op = "m.zero"  -> JudgeResult(e, reg, MOne)
      [] e.op = "m.var"   -> JudgeResult(e, reg, MVar(e.i + 1, e.k))
      [] e.op = "m.add"   -> JudgeResult(e, reg, MMul(reg[e.a], reg[e.b]))
      [] e.op = "m.sub"   -> JudgeSub(e, reg)
      [] e.op = "m.obs"   -> JudgeObs(e, reg)
      [] e.op = "m.total" -> JudgeTotal(e, reg)
      [] e.op = "o.cmp"   -> JudgeCmp(e, reg)

VARIABLES l, reg, bad, dead
vars == <<l, reg, bad, dead>>

Init == l \in Begins /\ reg = InitReg /\ bad = {} /\ dead = FALSE
Next ==
    /\ l < Len(Trace)
    /\ Trace[l + 1].op # "begin"
    /\ l' = l + 1
    /\ LET j == Judge(Trace[l + 1], reg)
       IN  bad' = j.bad /\ reg' = j.reg /\ dead' = j.dead
Spec == Init /\ [][Next]_vars
Conforms == Focus \notin bad
=============================================================================
