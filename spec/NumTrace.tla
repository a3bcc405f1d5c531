------------------------------ MODULE NumTrace ------------------------------
(***************************************************************************)
(* Histories of operations on Rational registers, and calls on Integer.    *)
(*   C01  canonical form and equality of rationals                         *)
(*   C02  exact rational arithmetic                                        *)
(*   C03  order of the rationals                                           *)
(*   C04  integer gcd, lcm and arithmetic                                  *)
(*   C23  the field interface of the number types                          *)
(***************************************************************************)
EXTENDS TraceBase, NumOps

NReg == 6
InitReg == [i \in 0..(NReg - 1) |-> QZero]

JudgeArith(e, reg) ==
    IF ~Defined(e, reg)
    THEN \* must panic; there is no value to go on with
         IF IsPanic(e) THEN Verdict({}, reg) ELSE DeadVerdict({"C01", "C02"}, reg)
    ELSE IF IsVal(e)
    THEN LET v == e.out.v
             q == Exact(e, reg)
             bad == Blame(SameQ(v, q), "C02") \cup Blame(Usable(v) /\ QIsCanonical(v), "C01")
         IN  IF Usable(v)
             THEN Verdict(bad, [reg EXCEPT ![e.d] = QNorm(v[1], v[2])])
             ELSE DeadVerdict(bad, reg)
    ELSE IF IsPanic(e)
    THEN Verdict(Blame(~MustSucceed(e, reg), "C02"), reg)
    ELSE DeadVerdict({"C02"}, reg)

JudgeObs(e, reg) ==
    LET x == reg[e.a]
        y == reg[e.b]
        c == QCmp(x, y)
        Bit(p) == IF p THEN 1 ELSE 0
    IN  IF IsVal(e)
        THEN LET v == e.out.v
             IN  Verdict(Blame(/\ v.cmp = c
                               /\ v.pcmp = c
                               /\ v.lt = Bit(c < 0)
                               /\ v.le = Bit(c <= 0)
                               /\ v.gt = Bit(c > 0)
                               /\ v.ge = Bit(c >= 0)
                               /\ SameQ(v.max, IF c >= 0 THEN x ELSE y)
                               /\ SameQ(v.min, IF c >= 0 THEN y ELSE x), "C03"), reg)
        ELSE Verdict(Blame(IsPanic(e) /\ ~(Small(x) /\ Small(y)), "C03"), reg)

JudgeEq(e, reg) ==
    LET x == reg[e.a]
        y == reg[e.b]
        same == IF x = y THEN 1 ELSE 0
    IN  IF IsVal(e)
        THEN LET v == e.out.v
             IN  Verdict(Blame(v.eq = same /\ v.ne = 1 - same /\ v.eps = same /\ (x = y => v.hash = 1), "C01")
                         \cup Blame(v.eq = same, "C03")
                         \cup Blame(/\ v.zero = (IF x = QZero THEN 1 ELSE 0)
                                    /\ v.one = (IF x = QOne THEN 1 ELSE 0)
                                    /\ v.sgn = QSgn(x), "C02"), reg)
        ELSE Verdict({"C01"}, reg)

\* zero is never preferred as a divisor; the others are preordered
StabPair(x, y, xy, yx) ==
    CASE x = QZero /\ y # QZero -> xy = -1 /\ yx = 1
      [] x # QZero /\ y = QZero -> xy = 1 /\ yx = -1
      [] x # QZero /\ y # QZero -> xy \in {-1, 0, 1} /\ xy = -yx
      [] OTHER -> xy # 9

JudgeStab(e, reg) ==
    LET x == reg[e.a]
        y == reg[e.b]
        z == reg[e.c]
    IN  IF IsVal(e)
        THEN LET v == e.out.v
             IN  Verdict(Blame(/\ StabPair(x, y, v.xy, v.yx)
                               /\ StabPair(y, z, v.yz, v.zy)
                               /\ StabPair(x, z, v.xz, v.zx)
                               /\ (QZero \notin {x, y, z}) =>
                                    /\ (v.xy <= 0 /\ v.yz <= 0) => v.xz <= 0
                                    /\ (v.xy >= 0 /\ v.yz >= 0) => v.xz >= 0, "C03"), reg)
        ELSE Verdict(Blame(IsPanic(e) /\ ~(Small(x) /\ Small(y) /\ Small(z)), "C03"), reg)

\* floats: by magnitude
JudgeFStab(e, reg) ==
    LET c == QCmp(QAbs(e.x), QAbs(e.y))
    IN  Verdict(Blame(IsVal(e) /\ e.out.v = c, "C03"), reg)

\* --------------------------------------------------------------- integers
JudgeInt(e, reg) ==
    IF ~IntDefined(e) THEN Verdict(Blame(IsPanic(e), "C04"), reg)
    ELSE IF IsVal(e) THEN Verdict(Blame(e.out.v = IntExact(e), "C04"), reg)
    ELSE Verdict(Blame(IsPanic(e) /\ ~IntMustSucceed(e), "C04"), reg)

JudgeIntObs(e, reg) ==
    LET Bit(p) == IF p THEN 1 ELSE 0
        v == e.out.v
        c == ZCmp(e.a, e.b)
    IN  Verdict(Blame(/\ IsVal(e)
                      /\ v.pos = Bit(ZSgn(e.a) = 1)
                      /\ v.neg = Bit(ZSgn(e.a) = -1)
                      /\ v.zero = Bit(e.a = ZZero)
                      /\ v.one = Bit(e.a = ZOne)
                      /\ v.cmp = c
                      /\ v.eq = Bit(c = 0)
                      /\ v.lt = Bit(c < 0)
                      /\ v.le = Bit(c <= 0)
                      /\ v.gt = Bit(c > 0)
                      /\ v.ge = Bit(c >= 0)
                      /\ v.ne = Bit(c # 0)
                      /\ v.pcmp = c
                      /\ v.max = (IF c >= 0 THEN e.a ELSE e.b)
                      /\ v.min = (IF c >= 0 THEN e.b ELSE e.a)
                      /\ (c = 0 => v.hash = 1), "C04"), reg)

\* ------------------------------------------------- the field interface
JudgeUnits(e, reg, zero, one) ==
    Verdict(Blame(/\ IsVal(e)
                  /\ e.out.v.zero = (IF e.x = zero THEN 1 ELSE 0)
                  /\ e.out.v.one = (IF e.x = one THEN 1 ELSE 0)
                  /\ e.out.v.Z = zero
                  /\ e.out.v.O = one, "C23"), reg)

JudgePow(e, reg, k) ==
    IF e.x = QZero /\ k < 0
    THEN Verdict(Blame(e.T = "Rational" => IsPanic(e), "C23"), reg)
    ELSE LET q == QPow(e.x, k)
         IN  IF e.T = "Rational"
             THEN IF IsVal(e) THEN Verdict(Blame(e.out.v = q, "C23"), reg)
                  ELSE Verdict(Blame(IsPanic(e) /\ ~(ZLt(ZAbs(q[1]), T62) /\ ZLt(q[2], T62)), "C23"), reg)
             ELSE IF FloatRange(q) THEN Verdict(Blame(IsVal(e) /\ Close(e.T, e.out.v, q), "C23"), reg)
             ELSE Verdict({}, reg)

JudgeEps(e, reg) ==
    LET d == QAbs(QSub(e.x, e.y))
        Says(i) == IsVal(e) /\ e.out.v = i
    IN  Verdict(Blame(IF e.T = "Rational" THEN Says(IF d = QZero THEN 1 ELSE 0)
                      ELSE IF QCmp(d, Eps(e.T)) >= 0 THEN Says(0)
                      \* the difference may be rounded up to the bound
                      ELSE QCmp(d, QMul(Eps(e.T), QFrac(1023, 1024))) < 0 => Says(1), "C23"), reg)

Judge(e, reg) ==
    CASE e.op = "f.num"  -> JudgeUnits(e, reg, ZZero, ZOne)
      [] e.op = "f.unit" -> JudgeUnits(e, reg, QZero, QOne)
      [] e.op = "f.pow"  -> JudgePow(e, reg, e.e)
      [] e.op = "f.inv"  -> JudgePow(e, reg, -1)
      [] e.op = "f.eps"  -> JudgeEps(e, reg)
      [] e.op = "r.obs"  -> JudgeObs(e, reg)
      [] e.op = "r.eq"   -> JudgeEq(e, reg)
      [] e.op = "r.stab" -> JudgeStab(e, reg)
      [] e.op = "r.fstab" -> JudgeFStab(e, reg)
      [] e.op = "i.obs"  -> JudgeIntObs(e, reg)
      [] e.op \in {"i.gcd", "i.lcm", "i.add", "i.sub", "i.mul", "i.div", "i.rem", "i.neg",
                   "i.abs", "i.sgn", "i.from", "i.pow"} -> JudgeInt(e, reg)
      [] OTHER -> JudgeArith(e, reg)

\* ------------------------------------------------------------ the machine
VARIABLES l, reg, bad, dead
vars == <<l, reg, bad, dead>>

Init == l \in Begins /\ reg = InitReg /\ bad = {} /\ dead = FALSE
Next ==
    /\ l < Len(Trace)
    /\ Trace[l + 1].op # "begin"
    /\ l' = l + 1
    /\ IF dead THEN bad' = {} /\ UNCHANGED <<reg, dead>>
       ELSE LET j == Judge(Trace[l + 1], reg)
            IN  bad' = j.bad /\ reg' = j.reg /\ dead' = j.dead
Spec == Init /\ [][Next]_vars
Conforms == Focus \notin bad
=============================================================================
