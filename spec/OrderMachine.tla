---------------------------- MODULE OrderMachine ----------------------------
(***************************************************************************)
(* The monomial orders, and walks through them (C06).                      *)
(*                                                                         *)
(* A state is an order, a pair of monomials a >= b and the multiplier c by *)
(* which the walk got there; a step multiplies both by a variable, or      *)
(* divides both by one they share, which must not change how they compare. *)
(* Checked for all pairs in the box: the orders are total, antisymmetric,  *)
(* transitive, compatible with multiplication, have 1 as least element,    *)
(* and are the orders of their weight matrices.                            *)
(***************************************************************************)
EXTENDS Monomial, FiniteSets, Replay

CONSTANTS Vars, Top
VARIABLES ord, a, b, sgn

Monos == {MTrim(v) : v \in [1..Vars -> 0..Top]}

Init == ord \in Orders \cup {"grad"} /\ a \in Monos /\ b \in Monos /\ sgn = MCmp(ord, a, b)
InBox(m) == \A i \in 1..Len(m) : m[i] <= Top
Next == \E i \in 1..Vars :
    LET x == MVar(i, 1)
    IN  \/ /\ InBox(MMul(a, x)) /\ InBox(MMul(b, x))
           /\ a' = MMul(a, x) /\ b' = MMul(b, x) /\ UNCHANGED <<ord, sgn>>
        \/ /\ MDivides(x, a) /\ MDivides(x, b)
           /\ a' = MQuo(a, x) /\ b' = MQuo(b, x) /\ UNCHANGED <<ord, sgn>>
Spec == Init /\ [][Next]_<<ord, a, b, sgn>>

\* the comparison survives multiplication and division
Compatible == MCmp(ord, a, b) = sgn
Antisymmetric == MCmp(ord, b, a) = -sgn
Total == ord # "grad" => (sgn = 0) = (a = b)
OneLeast == ord # "grad" /\ a # MOne => MCmp(ord, MOne, a) < 0
Graded == ord \in {"grlex", "grevlex", "grad"} /\ MTotal(a) # MTotal(b) => sgn = SgnInt(MTotal(a) - MTotal(b))
\* a divisor is not greater
Monotone == ord # "grad" /\ MDivides(a, b) => sgn <= 0
Transitive == \A c \in Monos : sgn <= 0 /\ MCmp(ord, b, c) <= 0 => MCmp(ord, a, c) <= 0

Unit(i) == [j \in 1..Vars |-> IF j = i THEN 1 ELSE 0]
Ones == [j \in 1..Vars |-> 1]
Neg(w) == [j \in 1..Vars |-> -w[j]]
Weights ==
    CASE ord = "lex" -> [k \in 1..Vars |-> Unit(k)]
      [] ord = "revlex" -> [k \in 1..Vars |-> Unit(Vars + 1 - k)]
      [] ord = "grlex" -> <<Ones>> \o [k \in 1..Vars |-> Unit(k)]
      [] ord = "grevlex" -> <<Ones>> \o [k \in 1..Vars |-> Neg(Unit(Vars + 1 - k))]
      [] ord = "grad" -> <<Ones>>
RECURSIVE Weight(_, _, _)
Weight(w, m, i) == IF i > Vars THEN 0 ELSE w[i] * MAt(m, i) + Weight(w, m, i + 1)
RECURSIVE ByWeights(_)
ByWeights(ws) ==
    IF ws = <<>> THEN 0
    ELSE LET d == Weight(ws[1], a, 1) - Weight(ws[1], b, 1) IN IF d # 0 THEN SgnInt(d) ELSE ByWeights(Tail(ws))
WeightOrder == sgn = ByWeights(Weights)

\* known facts that tell the orders apart
Examples ==
    /\ CmpLex(<<1>>, <<0, 5>>) = 1 /\ CmpLex(<<1, 2>>, <<1, 1, 9>>) = 1
    /\ CmpRevLex(<<9>>, <<0, 1>>) = -1 /\ CmpRevLex(<<1, 0, 2>>, <<0, 5, 2>>) = -1
    /\ CmpGrLex(<<1, 1>>, <<0, 0, 3>>) = -1 /\ CmpGrLex(<<2, 0, 1>>, <<1, 2>>) = 1
    /\ CmpGRevLex(<<2, 0, 1>>, <<1, 2>>) = -1 /\ CmpGRevLex(<<4>>, <<1, 2>>) = 1

\* one comparison covers all orders
Replayed == ord = "lex" => Emit(<<[op |-> "o.cmp", a |-> a, b |-> b]>>)
=============================================================================
