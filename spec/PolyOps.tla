------------------------------- MODULE PolyOps -------------------------------
(***************************************************************************)
(* Lists of terms and the polynomials they denote, and what the calls on   *)
(* polynomial registers mean.  Shared by the design machines and the trace *)
(* specification PolyTrace.  A call is a record e: e.op, the field e.F,    *)
(* the Rust type of the coefficients e.T, and arguments.                   *)
(***************************************************************************)
EXTENDS Polynomial

MaxExp == 255
Bit(p) == IF p THEN 1 ELSE 0

T20 == ZPow(ZInt(2), 20)
T16 == ZPow(ZInt(2), 16)
T6 == ZInt(64)

\* ------------------------------------------------ observed coefficients
UsableC(F, c) == F = 0 => c[2] # ZZero
NormC(F, c) == IF F = 0 THEN QNorm(c[1], c[2]) ELSE c

UsableL(F, v) == \A i \in 1..Len(v) : UsableC(F, v[i][1])

\* the list has no zero terms, no repeated monomials, no trailing zeros
CleanL(F, v) ==
    /\ \A i \in 1..Len(v) : ~FIsZero(F, NormC(F, v[i][1])) /\ MIsCanonical(v[i][2])
    /\ Cardinality({v[i][2] : i \in 1..Len(v)}) = Len(v)

\* the polynomial a list of terms denotes
RECURSIVE AbsFrom(_, _, _)
AbsFrom(F, v, i) ==
    IF i > Len(v) THEN PZero
    ELSE PAdd(F, PTerm(F, NormC(F, v[i][1]), MTrim(v[i][2])), AbsFrom(F, v, i + 1))
Abs(F, v) == AbsFrom(F, v, 1)

TermP(F, t) == PTerm(F, t[1], t[2])

\* ------------------------------------------- what has to be representable
MonoFits(m) == \A i \in 1..Len(m) : m[i] <= MaxExp
MulFits(f, g) == \A m \in DOMAIN f : \A k \in DOMAIN g : MonoFits(MMul(m, k))
DegFits(f) == \A m \in DOMAIN f : \A i \in 1..Len(m) : m[i] <= MaxExp

CoefBelow(F, c, n, d) == F # 0 \/ (ZLt(ZAbs(c[1]), n) /\ ZLt(c[2], d))
PBelow(F, f, n, d) == \A m \in DOMAIN f : CoefBelow(F, f[m], n, d)

\* coefficients on which a few operations of any coefficient type are exact
Tame(F, f) == F # 0 \/ (PBelow(F, f, T16, T6) /\ Cardinality(DOMAIN f) <= 16)
\* ... and which a product of polynomials of Rationals cannot take out of i64
TameMul(F, f) == F # 0 \/ (PBelow(F, f, T6, T6) /\ Cardinality(DOMAIN f) <= 4)

IsFloat(e) == e.T \in {"f64", "f32"}
\* f32 has 24 bits of mantissa: a product of two 10-bit numbers with denominators up to 8
TameF32(f) == PBelow(0, f, ZInt(1024), ZInt(8)) /\ Cardinality(DOMAIN f) <= 8
\* is the value exact in the type of this line, if the operands fs are these?
ExactFor(e, fs) ==
    CASE e.T = "f64" -> \A i \in 1..Len(fs) : Tame(0, fs[i])
      [] e.T = "f32" -> \A i \in 1..Len(fs) : TameF32(fs[i])
      [] OTHER -> TRUE
\* may a call on these operands not trap on i64 overflow?
NoOverflow(e, fs) ==
    CASE e.T = "Rational" /\ e.op \in {"p.mul", "p.tmul", "p.scale", "p.div", "t.mul"} -> \A i \in 1..Len(fs) : TameMul(0, fs[i])
      [] e.T = "Rational" -> \A i \in 1..Len(fs) : Tame(0, fs[i])
      [] OTHER -> TRUE

\* ------------------------------------------------------ ring operations
\* operands, as polynomials
Operands(e, reg) ==
    CASE e.op \in {"p.add", "p.sub", "p.mul"} -> <<reg.p[e.a], reg.p[e.b]>>
      [] e.op \in {"p.neg", "p.copy"} -> <<reg.p[e.a]>>
      [] e.op \in {"p.scale", "p.div"} -> <<reg.p[e.a], PConst(e.F, e.c)>>
      [] e.op \in {"p.addt", "p.subt", "p.tsub", "p.tmul"} -> <<reg.p[e.a], TermP(e.F, e.t)>>
      [] e.op \in {"t.add", "t.sub", "t.mul"} -> <<TermP(e.F, e.s), TermP(e.F, e.t)>>
      [] e.op \in {"t.neg", "p.fromt", "t.new"} -> <<TermP(e.F, e.t)>>
      [] e.op = "p.const" -> <<PConst(e.F, e.c)>>
      [] e.op = "p.new" -> <<Abs(e.F, e.ts)>>
      [] OTHER -> <<>>

Exact(e, fs) ==
    LET F == e.F IN
    CASE e.op \in {"p.add", "p.addt", "t.add"} -> PAdd(F, fs[1], fs[2])
      [] e.op \in {"p.sub", "p.subt", "t.sub"} -> PSub(F, fs[1], fs[2])
      [] e.op = "p.tsub" -> PSub(F, fs[2], fs[1])
      [] e.op \in {"p.mul", "p.tmul", "t.mul", "p.scale"} -> PMul(F, fs[1], fs[2])
      [] e.op = "p.div" -> PScale(F, FInv(F, e.c), fs[1])
      [] e.op \in {"p.neg", "t.neg"} -> PNeg(F, fs[1])
      [] e.op \in {"p.copy", "p.fromt", "t.new", "p.const", "p.new"} -> fs[1]
      [] e.op \in {"p.zero"} -> PZero
      [] e.op \in {"p.one", "t.one"} -> POne(F)
      [] e.op = "p.var" -> PTerm(F, FOne(F), MVar(e.i + 1, e.k))

\* enough coordinates?
NVars(f) == LET L == {Len(m) : m \in DOMAIN f} IN IF L = {} THEN 0 ELSE Max(L)

\* -------------------------------------------------------------- division
RegSeq(reg, is) == [i \in 1..Len(is) |-> reg.p[is[i]]]

RECURSIVE Recombine(_, _, _, _)
Recombine(F, qs, gs, i) ==
    IF i > Len(qs) THEN PZero ELSE PAdd(F, PMul(F, qs[i], gs[i]), Recombine(F, qs, gs, i + 1))

Irreducible(ord, r, gs) ==
    \A i \in 1..Len(gs) : gs[i] # PZero => \A m \in DOMAIN r : ~MDivides(PLm(ord, gs[i]), m)

\* the machine of Division.tla run to its end: quotients of the first applicable divisors
RECURSIVE DivRun(_, _, _, _, _, _)
DivRun(F, ord, f, gs, lms, qs) ==
    IF f = PZero THEN qs
    ELSE LET lm == PLm(ord, f)
             i  == FirstDivisor(ord, lm, gs, lms)
         IN  IF i = 0 THEN DivRun(F, ord, [m \in DOMAIN f \ {lm} |-> f[m]], gs, lms, qs)
             ELSE LET c == FDiv(F, f[lm], gs[i][lms[i]])
                      k == MQuo(lm, lms[i])
                  IN  DivRun(F, ord, PSub(F, f, PMulTerm(F, c, k, gs[i])), gs, lms,
                             TLCEval([qs EXCEPT ![i] = PAdd(F, @, PTerm(F, c, k))]))
Quotients(F, ord, f, gs) ==
    DivRun(F, ord, f, gs, [i \in 1..Len(gs) |-> IF gs[i] = PZero THEN <<>> ELSE PLm(ord, gs[i])],
           [i \in 1..Len(gs) |-> PZero])
=============================================================================
