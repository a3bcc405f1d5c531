------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* The text of numbers, monomials, terms, polynomials and matrices.        *)
(* A superscript digit d is written ^d, and a line break |.                *)
(***************************************************************************)
EXTENDS Field, Monomial, TLC

Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>

\* the n last decimal digits of i >= 0
RECURSIVE Digits(_, _)
Digits(i, n) == IF n = 0 THEN "" ELSE Digits(i \div 10, n - 1) \o Digit[(i % 10) + 1]

RECURSIVE NatText(_)
NatText(i) == IF i < 10 THEN Digit[i + 1] ELSE NatText(i \div 10) \o Digit[(i % 10) + 1]

RECURSIVE SuperText(_)
SuperText(i) == IF i < 10 THEN "^" \o Digit[i + 1] ELSE SuperText(i \div 10) \o "^" \o Digit[(i % 10) + 1]

RECURSIVE LimbsText(_, _)
LimbsText(z, k) == IF k = 1 THEN "" ELSE Digits(z[k], 4) \o LimbsText(z, k - 1)

\* decimal text of the unbounded integer z
ZText(z) ==
    IF z = ZZero THEN "0"
    ELSE (IF ZSgn(z) < 0 THEN "-" ELSE "") \o NatText(z[Len(z)]) \o LimbsText(z, Len(z) - 1)

QText(q) == IF q[2] = ZOne THEN ZText(q[1]) ELSE ZText(q[1]) \o "/" \o ZText(q[2])

\* the decimal text of a number whose denominator is a power of two at most 2^6
Log2Z(z) == CHOOSE k \in 0..6 : ZPow(ZInt(2), k) = z
RECURSIVE PadLeft(_, _)
PadLeft(s, n) == IF Len(s) >= n THEN s ELSE PadLeft("0" \o s, n)
DecText(q) ==
    LET k == Log2Z(q[2])
        a == ZAbs(q[1])
        whole == ZQuo(a, q[2])
        rest == ZMul(ZRem(a, q[2]), ZPow(ZInt(5), k))     \* in units of 10^-k
    IN  (IF ZSgn(q[1]) < 0 THEN "-" ELSE "") \o ZText(whole)
        \o (IF k = 0 THEN "" ELSE "." \o PadLeft(ZText(rest), k))
\* floats in debugging output always have a fraction
DebugText(q) == IF q[2] = ZOne THEN DecText(q) \o ".0" ELSE DecText(q)

\* coefficients of the types the traces use
CoefText(F, T, c) ==
    CASE T = "Rational" -> QText(c)
      [] T \in {"f64", "f32"} -> DecText(c)
      [] OTHER -> NatText(c)
CellText(F, T, c) == IF T \in {"f64", "f32"} THEN DebugText(c) ELSE CoefText(F, T, c)

Vars == <<"x", "y", "z", "u", "v">>
PowerText(i, k) == IF k = 0 THEN "" ELSE IF k = 1 THEN Vars[i] ELSE Vars[i] \o SuperText(k)
RECURSIVE PowersText(_, _)
PowersText(m, i) == IF i > Len(m) THEN "" ELSE PowerText(i, m[i]) \o PowersText(m, i + 1)
RECURSIVE ListText(_, _)
ListText(m, i) == IF i > Len(m) THEN "" ELSE (IF i = 1 THEN "" ELSE ", ") \o NatText(m[i]) \o ListText(m, i + 1)

MonoText(m) == IF Len(m) <= 5 THEN PowersText(m, 1) ELSE "X[" \o ListText(m, 1) \o "]"

TermText(F, T, t) ==
    IF t[2] = MOne THEN CoefText(F, T, t[1])
    ELSE IF t[1] = FOne(F) THEN MonoText(t[2])
    ELSE IF t[1] = FNeg(F, FOne(F)) THEN "-" \o MonoText(t[2])
    ELSE CoefText(F, T, t[1]) \o MonoText(t[2])

RECURSIVE TailText(_, _, _)
TailText(T, ts, i) ==
    IF i > Len(ts) THEN ""
    ELSE LET t == ts[i]
         IN  (IF QSgn(t[1]) < 0 THEN " - " \o TermText(0, T, <<QNeg(t[1]), t[2]>>)
              ELSE " + " \o TermText(0, T, t))
             \o TailText(T, ts, i + 1)
\* a polynomial over the rationals, as the sequence of its terms
PolyText(T, ts) == IF ts = <<>> THEN "0" ELSE TermText(0, T, ts[1]) \o TailText(T, ts, 2)

RECURSIVE CellsText(_, _, _, _, _)
CellsText(F, T, A, i, j) ==
    IF j > A.c THEN ""
    ELSE (IF j = 1 THEN "" ELSE ", ") \o CellText(F, T, A.e[(i - 1) * A.c + j]) \o CellsText(F, T, A, i, j + 1)
RECURSIVE RowsText(_, _, _, _)
RowsText(F, T, A, i) ==
    IF i > A.r THEN ""
    ELSE (IF i = 1 THEN "" ELSE "|") \o "[" \o CellsText(F, T, A, i, 1) \o "]" \o RowsText(F, T, A, i + 1)
MatText(F, T, A) == "|" \o RowsText(F, T, A, 1)
=============================================================================
