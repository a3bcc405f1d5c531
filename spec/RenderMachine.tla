--------------------------- MODULE RenderMachine ----------------------------
(***************************************************************************)
(* Rendered text determines what was rendered (C21).  The set of objects   *)
(* grows by one object of its kind at a time, the set of their texts with  *)
(* it: if two objects had the same text, the second set would fall behind. *)
(***************************************************************************)
EXTENDS Render, Replay, FiniteSets

CONSTANTS Big
VARIABLES kind, todo, texts, n
vars == <<kind, todo, texts, n>>

Ints == {ZInt(i) : i \in -12..12} \cup {ZPow(ZInt(10), k) : k \in 1..15} \cup {ZSub(ZPow(ZInt(10), k), ZOne) : k \in 1..15}
        \cup {ZNeg(ZPow(ZInt(10), k)) : k \in 1..15} \cup {ZAdd(ZPow(ZInt(10), 8), ZInt(7))}
Rats == {QNorm(ZInt(a), ZInt(b)) : a \in -6..12, b \in {1, 2, 3, 10, 12}}
Exps == IF Big THEN 0..255 ELSE {0, 1, 2, 9, 10, 11, 12, 20, 99, 100, 101, 110, 111, 199, 200, 255}
Few == {0, 1, 12, 200}
Monos == {MTrim(<<k>>) : k \in Exps} \cup {MTrim(<<0, k>>) : k \in Exps}
         \cup {MTrim(s) : s \in [1..3 -> {0, 1, 2, 11}]}
         \cup {MTrim(<<a, b, c, d, e>>) : a, b, e \in {0, 1}, c, d \in {0, 12}}
         \cup {MTrim(<<a, b, 0, c, d, e>>) : a, b, c \in {0, 1, 11}, d, e \in {0, 2}}
         \cup {MTrim(<<a, 0, 0, 0, 1, b, c>>) : a, b, c \in Few}
TMonos == {<<>>, <<1>>, <<0, 1>>, <<2>>, <<12>>, <<1, 1>>, <<0, 0, 1>>, <<1, 0, 0, 0, 0, 2>>}
Coefs == {QInt(1), QInt(-1), QInt(2), QInt(-12), <<ZOne, ZInt(2)>>, <<ZInt(-3), ZInt(2)>>, QInt(10)}
Dyads == {QInt(1), QInt(-1), QInt(2), <<ZOne, ZInt(2)>>, <<ZInt(-5), ZInt(8)>>, QInt(100)}
Terms == {<<c, m>> : c \in Coefs, m \in TMonos}
FTerms == {<<c, m>> : c \in Dyads, m \in TMonos}
\* -1 is 1 in GF(2)
GTerms == {<<c, m>> : c \in 1..6, m \in TMonos}
ThreeM == {<<>>, <<1>>, <<0, 2>>}
Polys == {<<>>} \cup {<<t>> : t \in Terms}
         \cup {<<<<a, m>>, <<b, k>>>> : a, b \in Coefs, m \in {<<1>>, <<0, 2>>}, k \in {<<>>, <<1, 1>>}}
         \cup {<<<<a, <<2>>>>, <<b, <<0, 1>>>>, <<c, <<>>>>>> : a, b, c \in {QInt(1), QInt(-1), <<ZInt(-3), ZInt(2)>>}}
FPolys == {<<>>} \cup {<<t>> : t \in FTerms}
          \cup {<<<<a, m>>, <<b, k>>>> : a, b \in Dyads, m \in {<<1>>, <<0, 2>>}, k \in {<<>>, <<1, 1>>}}
Mats(V) == UNION {{[r |-> s[1], c |-> s[2], e |-> e] : e \in [1..s[1] * s[2] -> V]} : s \in {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 1>>}}
GMats == Mats({0, 1, 10})
FMats == Mats({QInt(0), QInt(-1), <<ZInt(3), ZInt(2)>>})

Universe(k) ==
    CASE k = "int" -> Ints [] k = "rat" -> Rats [] k = "mono" -> Monos [] k = "term" -> Terms [] k = "fterm" -> FTerms
      [] k = "gterm" -> GTerms [] k = "poly" -> Polys [] k = "fpoly" -> FPolys [] k = "gmat" -> GMats [] k = "fmat" -> FMats
Kinds == {"int", "rat", "mono", "term", "fterm", "gterm", "poly", "fpoly", "gmat", "fmat"}
Text(k, x) ==
    CASE k = "int" -> ZText(x) [] k = "rat" -> QText(x) [] k = "mono" -> MonoText(x)
      [] k = "term" -> TermText(0, "Rational", x) [] k = "fterm" -> TermText(0, "f64", x)
      [] k = "gterm" -> TermText(7, "Gf", x)
      [] k = "poly" -> PolyText("Rational", x) [] k = "fpoly" -> PolyText("f64", x)
      [] k = "gmat" -> MatText(7, "Gf", x) [] k = "fmat" -> MatText(0, "f64", x)
Call(k, x) ==
    CASE k = "int" -> [op |-> "d.int", x |-> x] [] k = "rat" -> [op |-> "d.rat", x |-> x]
      [] k = "mono" -> [op |-> "d.mono", m |-> x]
      [] k = "term" -> [op |-> "d.term", F |-> 0, T |-> "Rational", t |-> x]
      [] k = "fterm" -> [op |-> "d.term", F |-> 0, T |-> "f64", t |-> x]
      [] k = "gterm" -> [op |-> "d.term", F |-> 7, T |-> "Gf", t |-> x]
      [] k = "poly" -> [op |-> "d.poly", T |-> "Rational", ts |-> x]
      [] k = "fpoly" -> [op |-> "d.poly", T |-> "f64", ts |-> x]
      [] k = "gmat" -> [op |-> "d.mat", F |-> 101, T |-> "Gf", m |-> x]
      [] k = "fmat" -> [op |-> "d.mat", F |-> 0, T |-> "f64", m |-> x]

Init == kind \in Kinds /\ todo = Listed(Universe(kind)) /\ texts = {} /\ n = 0
Next == /\ todo # <<>>
        /\ texts' = texts \cup {Text(kind, Head(todo))}
        /\ n' = n + 1
        /\ todo' = Tail(todo) /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == <<kind, n>>

Injective == Cardinality(texts) = n
Replayed == todo # <<>> => Emit(<<Call(kind, Head(todo))>>)
=============================================================================
