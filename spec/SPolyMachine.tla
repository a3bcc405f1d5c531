---------------------------- MODULE SPolyMachine ----------------------------
(***************************************************************************)
(* Leading terms, sorting, least common multiples, quotients of terms and  *)
(* S-polynomials (C11).                                                    *)
(*                                                                         *)
(* The machine sorts the terms of f by exchanging neighbours that are out  *)
(* of order, in any sequence: it always ends with the same list, whose     *)
(* last element is the leading term.  The other properties are checked of  *)
(* every pair of polynomials in the box.                                   *)
(***************************************************************************)
EXTENDS PolyOps, Replay

CONSTANTS F, Types, Size
VARIABLES ord, f, g, list
vars == <<ord, f, g, list>>

cm == IF F = 0 THEN QFrac(3, 2) ELSE F - 1
Pool == CASE Size = 1 -> {<<>>, <<1>>, <<0, 1>>, <<1, 1>>, <<2>>}
          [] OTHER -> {<<>>, <<2>>, <<1, 1>>, <<0, 0, 1>>, <<0, 2, 1>>, <<1, 0, 2>>}
Fn(D) == [m \in D |-> IF MTotal(m) % 2 = 1 THEN cm ELSE FOne(F)]
Fns == {Fn(D) : D \in {E \in SUBSET Pool : Cardinality(E) <= 3}}

Ts(s) == [i \in 1..Len(s) |-> <<f[s[i]], s[i]>>]
Init == ord \in Orders /\ f \in Fns /\ g \in Fns /\ list = Listed(DOMAIN f)
\* exchange two neighbours
Next == \E i \in 1..(Len(list) - 1) :
    /\ MCmp(ord, list[i], list[i + 1]) > 0
    /\ list' = [list EXCEPT ![i] = list[i + 1], ![i + 1] = list[i]]
    /\ UNCHANGED <<ord, f, g>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sorted == \A i \in 1..(Len(list) - 1) : MCmp(ord, list[i], list[i + 1]) < 0
SameTerms == {list[i] : i \in 1..Len(list)} = DOMAIN f /\ Len(list) = Cardinality(DOMAIN f)
Settles == <>[]Sorted
Last == Sorted /\ f # PZero => list[Len(list)] = PLm(ord, f)

Start == list = Listed(DOMAIN f)
LeadingTerms == Start /\ f # PZero =>
    /\ PLm(ord, f) \in DOMAIN f /\ \A m \in DOMAIN f : MCmp(ord, m, PLm(ord, f)) <= 0
    /\ g # PZero => PLm(ord, PMul(F, f, g)) = MMul(PLm(ord, f), PLm(ord, g))
    /\ g # PZero => PLc(ord, PMul(F, f, g)) = FMul(F, PLc(ord, f), PLc(ord, g))
    /\ g # PZero /\ PAdd(F, f, g) # PZero =>
          LET top == IF MCmp(ord, PLm(ord, f), PLm(ord, g)) >= 0 THEN PLm(ord, f) ELSE PLm(ord, g)
          IN  MCmp(ord, PLm(ord, PAdd(F, f, g)), top) <= 0
    /\ PAdd(F, PTerm(F, PLc(ord, f), PLm(ord, f)), PDropLt(ord, f)) = f

SPolys == Start /\ f # PZero /\ g # PZero =>
    LET lf == PLm(ord, f)
        lg == PLm(ord, g)
        l == MLcm(lf, lg)
        s == PSPoly(F, ord, f, g)
    IN  /\ \A m \in DOMAIN s : MCmp(ord, m, l) < 0
        /\ PSPoly(F, ord, g, f) = PNeg(F, s)
        /\ PSPoly(F, ord, f, f) = PZero
        /\ PSPoly(F, ord, PScale(F, cm, f), g) = s
        \* lc(f) lc(g) s = lc(g) (l / lf) f - lc(f) (l / lg) g
        /\ PScale(F, FMul(F, f[lf], g[lg]), s)
             = PSub(F, PMulTerm(F, g[lg], MQuo(l, lf), f), PMulTerm(F, f[lf], MQuo(l, lg), g))
        \* coprime leading monomials: reduces to zero by f and g
        /\ Coprime(lf, lg) => PRem(F, ord, s, <<f, g>>) = PZero
        /\ Coprime(lf, lg) = (l = MMul(lf, lg))

Typed(T, e) == e @@ [F |-> F, T |-> T]
Tf == Ts(Listed(DOMAIN f))
Tg == LET s == Listed(DOMAIN g) IN [i \in 1..Len(s) |-> <<g[s[i]], s[i]>>]
SomeT(t, m) == IF t = <<>> THEN <<FOne(F), m>> ELSE t[1]
a1 == SomeT(Tf, <<1>>)
b1 == SomeT(Tg, <<0, 1>>)
Script(T) == [i \in 1..10 |-> Typed(T,
    CASE i = 1 -> [op |-> "p.new", d |-> 0, ts |-> Tf]
      [] i = 2 -> [op |-> "p.new", d |-> 1, ts |-> Tg]
      [] i = 3 -> [op |-> "p.lead", ord |-> ord, a |-> 0]
      [] i = 4 -> [op |-> "p.sort", ord |-> ord, a |-> 0]
      [] i = 5 -> [op |-> "p.spoly", ord |-> ord, tame |-> 1, a |-> 0, b |-> 1]
      [] i = 6 -> [op |-> "p.spoly", ord |-> ord, tame |-> 1, a |-> 1, b |-> 0]
      [] i = 7 -> [op |-> "t.lcm", ord |-> ord, s |-> a1, t |-> b1]
      [] i = 8 -> [op |-> "t.div", tame |-> 0, s |-> a1, t |-> b1]
      [] i = 9 -> [op |-> "t.div", tame |-> 0, s |-> b1, t |-> a1]
      [] i = 10 -> [op |-> "t.obs", s |-> a1, t |-> b1])]
Replayed == Start => \A T \in Types : Emit(Script(T))
=============================================================================
