------------------------------ MODULE SelfTest ------------------------------
(***************************************************************************)
(* The arithmetic TLC uses (with the Java overrides, when they are on the  *)
(* class path) agrees with the TLA+ definitions.  RatRef/BigIntRef are     *)
(* copies of Rat/BigInt under names the overrides do not know.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Randomization
Fast == INSTANCE Rat
Ref  == INSTANCE RatRef

CONSTANT N        \* how many random pairs
VARIABLES k, a, b

Limb == {0, 1, 2, 9998, 9999, 5000, 4321, 7}
Mags == UNION { [1..n -> Limb] : n \in 1..4 }
Canon(s, m) == IF m[Len(m)] = 0 THEN <<0>> ELSE <<s>> \o m

Draw == LET s == RandomElement({-1, 1}) m == RandomElement(Mags) IN Canon(s, m)
Init == k = 0 /\ a = <<0>> /\ b = <<0>>
Next == k < N /\ k' = k + 1 /\ a' = Draw /\ b' = Draw

Agree ==
    /\ Fast!ZAdd(a, b) = Ref!ZAdd(a, b)
    /\ Fast!ZSub(a, b) = Ref!ZSub(a, b)
    /\ Fast!ZMul(a, b) = Ref!ZMul(a, b)
    /\ Fast!ZCmp(a, b) = Ref!ZCmp(a, b)
    /\ Fast!ZGcd(a, b) = Ref!ZGcd(a, b)
    /\ Fast!ZPow(a, 3) = Ref!ZPow(a, 3)
    /\ b # <<0>> =>
        /\ Fast!ZQuo(a, b) = Ref!ZQuo(a, b)
        /\ Fast!ZRem(a, b) = Ref!ZRem(a, b)
        /\ Ref!ZAdd(Ref!ZMul(b, Ref!ZQuo(a, b)), Ref!ZRem(a, b)) = a
        /\ Fast!QNorm(a, b) = Ref!QNorm(a, b)
        /\ LET p == Ref!QNorm(a, b)
               q == Ref!QNorm(b, <<1, 7, 3>>)
           IN  /\ Fast!QAdd(p, q) = Ref!QAdd(p, q)
               /\ Fast!QSub(p, q) = Ref!QSub(p, q)
               /\ Fast!QMul(p, q) = Ref!QMul(p, q)
               /\ Fast!QCmp(p, q) = Ref!QCmp(p, q)
               /\ Fast!QDiv(p, q) = Ref!QDiv(p, q)
               /\ Fast!QInv(q) = Ref!QInv(q)
               /\ Ref!QIsCanonical(p)
=============================================================================
