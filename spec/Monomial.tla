------------------------------ MODULE Monomial ------------------------------
(***************************************************************************)
(* Monomials x_1^a_1 ... x_n^a_n, as exponent vectors without trailing     *)
(* zeros (so equality of sequences is equality of monomials), and the      *)
(* monomial orders.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

MaxInt(a, b) == IF a < b THEN b ELSE a
MinInt(a, b) == IF a < b THEN a ELSE b

MOne == <<>>                                   \* the monomial 1

RECURSIVE MTrim(_)
MTrim(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN MTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s

MIsCanonical(s) == s = <<>> \/ s[Len(s)] # 0

\* exponent of variable i (1-based); zero beyond the end
MAt(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

MVar(i, d) == IF d = 0 THEN MOne ELSE [j \in 1..i |-> IF j = i THEN d ELSE 0]

MMul(a, b) == [i \in 1..MaxInt(Len(a), Len(b)) |-> MAt(a, i) + MAt(b, i)]

MDivides(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] <= b[i]

\* b / a, for MDivides(a, b)
MQuo(b, a) == MTrim([i \in 1..Len(b) |-> b[i] - MAt(a, i)])

MLcm(a, b) == [i \in 1..MaxInt(Len(a), Len(b)) |-> MaxInt(MAt(a, i), MAt(b, i))]
MGcd(a, b) == MTrim([i \in 1..MinInt(Len(a), Len(b)) |-> MinInt(MAt(a, i), MAt(b, i))])

RECURSIVE MTotalFrom(_, _)
MTotalFrom(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + MTotalFrom(a, i + 1)
MTotal(a) == MTotalFrom(a, 1)

SgnInt(i) == IF i < 0 THEN -1 ELSE IF i > 0 THEN 1 ELSE 0

(***************************************************************************)
(* Orders, as comparison functions to {-1, 0, 1}.  FirstDiff/LastDiff are  *)
(* the sign of a_i - b_i at the least/greatest index where a and b differ. *)
(***************************************************************************)
RECURSIVE FirstDiff(_, _, _, _)
FirstDiff(a, b, i, n) ==
    IF i > n THEN 0
    ELSE IF MAt(a, i) # MAt(b, i) THEN SgnInt(MAt(a, i) - MAt(b, i))
    ELSE FirstDiff(a, b, i + 1, n)

RECURSIVE LastDiff(_, _, _)
LastDiff(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF MAt(a, i) # MAt(b, i) THEN SgnInt(MAt(a, i) - MAt(b, i))
    ELSE LastDiff(a, b, i - 1)

CmpLex(a, b)    == FirstDiff(a, b, 1, MaxInt(Len(a), Len(b)))
CmpRevLex(a, b) == LastDiff(a, b, MaxInt(Len(a), Len(b)))
CmpGrad(a, b)   == SgnInt(MTotal(a) - MTotal(b))
CmpGrLex(a, b)  == LET g == CmpGrad(a, b) IN IF g # 0 THEN g ELSE CmpLex(a, b)
CmpGRevLex(a, b) == LET g == CmpGrad(a, b) IN IF g # 0 THEN g ELSE -CmpRevLex(a, b)

Orders == {"lex", "revlex", "grlex", "grevlex"}

MCmp(ord, a, b) ==
    CASE ord = "lex"     -> CmpLex(a, b)
      [] ord = "revlex"  -> CmpRevLex(a, b)
      [] ord = "grlex"   -> CmpGrLex(a, b)
      [] ord = "grevlex" -> CmpGRevLex(a, b)
      [] ord = "grad"    -> CmpGrad(a, b)

=============================================================================
