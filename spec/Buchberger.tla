----------------------------- MODULE Buchberger -----------------------------
(***************************************************************************)
(* Buchberger's algorithm with every freedom an implementation has: which  *)
(* pair comes next, whether coprime pairs are skipped, which redundant     *)
(* elements go first and in which order elements are reduced (C13).        *)
(*                                                                         *)
(* On every schedule: the list stays in the ideal and keeps generating it; *)
(* it stops; it stops with the reduced Groebner basis, which is the same   *)
(* set for all schedules and the one the operator ReducedGB computes.      *)
(* Membership in the ideal is decided by linear algebra (module Ideal).    *)
(*                                                                         *)
(* Of the final basis, also: the remainder is a linear function that does  *)
(* not depend on the order of the basis, f minus its remainder is in the   *)
(* ideal, and the remainder is zero exactly for the members (C14).         *)
(***************************************************************************)
EXTENDS Ideal, Replay

CONSTANTS F, Types, Size, D, Free       \* Free: every schedule; otherwise one schedule, more inputs
VARIABLES ord, gens, G, pairs, pc
vars == <<ord, gens, G, pairs, pc>>

c1 == FOne(F)
cm == IF F = 0 THEN QInt(-2) ELSE F - 1
NV == IF Size \in {2, 5} THEN 3 ELSE 2
Sets == CASE Size = 1 -> {{<<>>}, {<<1>>}, {<<0, 1>>, <<1>>}, {<<1, 1>>, <<>>}, {<<2>>, <<0, 1>>}, {<<1, 1>>, <<0, 2>>},
                          {<<2>>, <<1>>, <<0, 1>>}, {<<0, 2>>, <<1>>, <<>>}}
          [] Size = 2 -> {{<<1, 1>>, <<0, 0, 1>>}, {<<0, 2>>, <<1>>}, {<<0, 1, 1>>, <<2>>}, {<<1>>, <<0, 1>>, <<0, 0, 1>>},
                          {<<1, 0, 1>>, <<0, 1>>}}
          [] Size = 4 -> {{<<2>>, <<0, 1>>}, {<<1, 1>>, <<0, 2>>}, {<<1, 1>>, <<>>}, {<<0, 1>>, <<1>>}}
          [] Size = 5 -> {{<<1, 1>>, <<0, 0, 1>>}, {<<0, 1>>, <<1>>}, {<<0, 1, 1>>, <<1>>}}
          [] OTHER -> {{<<2>>, <<0, 1>>}, {<<1, 1>>, <<0, 2>>, <<>>}, {<<3>>, <<1, 1>>}, {<<2, 1>>, <<0, 2>>, <<1>>}, {<<1, 2>>, <<1>>}}
Fn(E) == [m \in E |-> IF MTotal(m) = 1 THEN cm ELSE c1]
Pool == {Fn(E) : E \in Sets}
Lists == IF Free THEN {<<a, b>> : a, b \in Pool} ELSE {<<>>, <<PZero>>, <<PZero, Fn({<<1>>}), PZero>>} \cup {<<a>> : a \in Pool} \cup {<<a, b>> : a, b \in Pool}
         \cup (IF Size # 5 THEN {<<a, b, Fn({<<1, 1>>, <<>>})>> : a, b \in Pool} ELSE {})

Lm(i) == PLm(ord, G[i])
NZ(s) == SelectSeq(s, LAMBDA x : x # PZero)
AllPairs(n) == {q \in (1..n) \X (1..n) : q[1] < q[2]}

Init ==
    /\ ord \in Orders /\ gens \in Lists
    /\ G = NZ(gens) /\ pairs = AllPairs(Len(G)) /\ pc = "extend"

First(q) == \A o \in pairs : q[1] < o[1] \/ (q[1] = o[1] /\ q[2] <= o[2])
Process == \E q \in pairs :
    /\ Free \/ First(q)
    /\ pc = "extend"
    /\ LET r == PRem(F, ord, PSPoly(F, ord, G[q[1]], G[q[2]]), G)
       IN  IF r = PZero THEN pairs' = pairs \ {q} /\ G' = G
           ELSE /\ G' = Append(G, r)
                /\ pairs' = (pairs \ {q}) \cup {<<i, Len(G) + 1>> : i \in 1..Len(G)}
    /\ UNCHANGED <<ord, gens, pc>>
Skip == \E q \in pairs :
    /\ Free /\ pc = "extend" /\ Coprime(Lm(q[1]), Lm(q[2]))
    /\ pairs' = pairs \ {q} /\ UNCHANGED <<ord, gens, G, pc>>
Extended == pc = "extend" /\ pairs = {} /\ pc' = "minimize" /\ UNCHANGED <<ord, gens, G, pairs>>

Redundant == {i \in 1..Len(G) : \E j \in 1..Len(G) : j # i /\ MDivides(Lm(j), Lm(i))}
Drop == \E i \in Redundant :
    /\ Free \/ \A j \in Redundant : i <= j
    /\ pc = "minimize"
    /\ G' = RemoveAt1(G, i) /\ UNCHANGED <<ord, gens, pairs, pc>>
Minimal == pc = "minimize" /\ Redundant = {} /\ pc' = "reduce" /\ UNCHANGED <<ord, gens, G, pairs>>

NewTail(i) == PMonic(F, ord, PAdd(F, PTerm(F, PLc(ord, G[i]), Lm(i)), PRem(F, ord, PDropLt(ord, G[i]), RemoveAt1(G, i))))
Reduce == \E i \in 1..Len(G) :
    /\ pc = "reduce" /\ NewTail(i) # G[i]
    /\ Free \/ \A j \in 1..i - 1 : NewTail(j) = G[j]
    /\ G' = [G EXCEPT ![i] = NewTail(i)] /\ UNCHANGED <<ord, gens, pairs, pc>>
Stop == pc = "reduce" /\ (\A i \in 1..Len(G) : NewTail(i) = G[i]) /\ pc' = "done" /\ UNCHANGED <<ord, gens, G, pairs>>

Next == Process \/ Skip \/ Extended \/ Drop \/ Minimal \/ Reduce \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminates == <>(pc = "done")

NoZeros == \A i \in 1..Len(G) : G[i] # PZero
GroebnerAfter == pc # "extend" => IsGroebner(F, ord, G)
Generates == pc # "extend" => \A i \in 1..Len(gens) : PRem(F, ord, gens[i], G) = PZero
Unique ==
    pc = "done" => /\ IsReduced(F, ord, G)
                   /\ {G[i] : i \in 1..Len(G)} = ReducedGB(F, ord, gens)
                   /\ Len(G) = Cardinality(ReducedGB(F, ord, gens))

\* the span of the multiples of the generators, as seen from a final state only (it is costly)
Graded == ord \in {"grlex", "grevlex"}
Probe == {Fn(E) : E \in {{<<1>>}, {<<0, 1>>, <<>>}, {<<1, 1>>, <<1>>}, {<<2>>, <<0, 2>>}, {<<2, 1>>, <<1, 1>>, <<>>}, {<<>>}}}
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Members ==
    pc = "done" /\ Graded =>
    LET B == Macaulay(F, ord, gens, NV, D)
    IN  /\ \A i \in 1..Len(G) : InSpan(F, ord, G[i], B)
        /\ \A f \in Probe :
              LET r == PRem(F, ord, f, G)
              IN  /\ InSpan(F, ord, PSub(F, f, r), B)
                  /\ (r = PZero) = InSpan(F, ord, f, B)
NormalForms ==
    pc = "done" =>
    /\ \A f \in Probe :
          LET r == PRem(F, ord, f, G)
          IN  /\ PRem(F, ord, f, Reversed(G)) = r
              /\ PRem(F, ord, r, G) = r
              /\ Irreducible(ord, r, G)
              /\ \A g \in Probe : PRem(F, ord, PAdd(F, f, g), G) = PAdd(F, r, PRem(F, ord, g, G))
    /\ \A i \in 1..Len(gens) : \A g \in Probe : PRem(F, ord, PMul(F, g, gens[i]), G) = PZero

Start == pc = "extend" /\ G = NZ(gens) /\ pairs = AllPairs(Len(G))
Ts(g) == LET s == Listed(DOMAIN g) IN [i \in 1..Len(s) |-> <<g[s[i]], s[i]>>]
Typed(T, e) == e @@ [F |-> F, T |-> T]
Probes == Listed(Probe)
RECURSIVE Queries(_, _)
Queries(T, i) ==
    IF i > Len(Probes) THEN <<>>
    ELSE <<Typed(T, [op |-> "p.new", d |-> 3, ts |-> Ts(Probes[i])]),
           Typed(T, [op |-> "g.nf", ord |-> ord, d |-> 4, a |-> 3]),
           Typed(T, [op |-> "p.sub", d |-> 4, a |-> 3, b |-> 4, fm |-> 0]),
           Typed(T, [op |-> "g.nf", ord |-> ord, d |-> 5, a |-> 4])>> \o Queries(T, i + 1)
Script(T) ==
    [i \in 1..Len(gens) |-> Typed(T, [op |-> "p.new", d |-> i - 1, ts |-> Ts(gens[i])])]
    \o <<Typed(T, [op |-> "g.crit", ord |-> ord, gs |-> [i \in 1..Len(gens) |-> i - 1]]),
         Typed(T, [op |-> "g.basis", ord |-> ord, gs |-> [i \in 1..Len(gens) |-> i - 1]])>>
    \o Queries(T, 1)
    \o (IF gens = <<>> THEN <<>> ELSE
        <<Typed(T, [op |-> "p.new", d |-> 3, ts |-> Ts(Probes[1])]),
          Typed(T, [op |-> "p.mul", d |-> 3, a |-> 3, b |-> 0, fm |-> 0]),
          Typed(T, [op |-> "g.nf", ord |-> ord, d |-> 4, a |-> 3])>>)
Replayed == Start => \A T \in Types : Emit(Script(T))
=============================================================================
