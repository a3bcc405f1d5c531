------------------------------- MODULE Field --------------------------------
(***************************************************************************)
(* The fields the library is generic over.  F = 0 is the field of rational *)
(* numbers; a prime F is the field of integers modulo F, whose elements    *)
(* are 0..F-1.  (f32/f64 values are dyadic rationals: traces over floats   *)
(* whose computations are exact are traces over F = 0.)                    *)
(***************************************************************************)
EXTENDS Rat

FZero(F) == IF F = 0 THEN QZero ELSE 0
FOne(F)  == IF F = 0 THEN QOne  ELSE 1

FIsZero(F, a) == IF F = 0 THEN a[1] = ZZero ELSE a = 0

FAdd(F, a, b) == IF F = 0 THEN QAdd(a, b) ELSE (a + b) % F
FNeg(F, a)    == IF F = 0 THEN QNeg(a)    ELSE (F - a) % F
FSub(F, a, b) == IF F = 0 THEN QSub(a, b) ELSE (a - b) % F
FMul(F, a, b) == IF F = 0 THEN QMul(a, b) ELSE (a * b) % F

RECURSIVE ModPow(_, _, _)
ModPow(p, a, k) ==
    IF k = 0 THEN 1
    ELSE LET h == ModPow(p, a, k \div 2)
             s == (h * h) % p
         IN  IF k % 2 = 0 THEN s ELSE (s * a) % p

FInv(F, a)    == IF F = 0 THEN QInv(a) ELSE ModPow(F, a, F - 2)
FDiv(F, a, b) == FMul(F, a, FInv(F, b))

\* the image of the integer i
FInt(F, i) == IF F = 0 THEN QInt(i) ELSE i % F

\* all elements of a finite field
FElems(F) == 0 .. F - 1

RECURSIVE FPow(_, _, _)
FPow(F, a, k) ==                                     \* k >= 0; 0^0 = 1
    IF k = 0 THEN FOne(F)
    ELSE IF k % 2 = 0 THEN LET h == FPow(F, a, k \div 2) IN FMul(F, h, h)
    ELSE FMul(F, a, FPow(F, a, k - 1))

RECURSIVE FSum(_, _)
FSum(F, s) == IF s = <<>> THEN FZero(F) ELSE FAdd(F, s[1], FSum(F, Tail(s)))

=============================================================================
