------------------------------ MODULE Division ------------------------------
(***************************************************************************)
(* Division of a polynomial by a list of polynomials, as a state machine   *)
(* that may use any divisor whose leading term divides the leading term of *)
(* what is left, and moves the leading term to the remainder only if there *)
(* is none (C10).                                                          *)
(*                                                                         *)
(* Whatever the choices: the dividend is the sum of the products of the    *)
(* quotients with the divisors, what is left and the remainder; no         *)
(* product has a larger leading monomial than the dividend; the remainder  *)
(* has no reducible term; the leading monomial of what is left decreases,  *)
(* so that division stops.  If the first possible divisor is always used   *)
(* it ends as the operators PRem and Quotients do.  If the divisors are a  *)
(* Groebner basis the remainder does not depend on the choices (C14).      *)
(***************************************************************************)
EXTENDS PolyOps, Replay

CONSTANTS F, Types, Size
VARIABLES ord, f, gs,           \* the problem
          p, qs, r,             \* what is left, quotients, remainder
          first,                \* were all divisors the first possible ones?
          pc
vars == <<ord, f, gs, p, qs, r, first, pc>>

c1 == FOne(F)
cm == IF F = 0 THEN QFrac(-2, 3) ELSE F - 1
X == <<1>>
Y == <<0, 1>>
XY == <<1, 1>>
X2 == <<2>>
Y2 == <<0, 2>>

\* divisors and dividends
Fn(D) == [m \in D |-> IF m \in {X, Y2} THEN cm ELSE c1]
Divisors ==
    CASE Size = 1 -> {PZero, Fn({<<>>}), Fn({X, <<>>}), Fn({Y}), Fn({XY, Y}), Fn({X, Y}), Fn({XY, <<>>}), Fn({X2, Y}), Fn({X2, Y2})}
      [] OTHER -> {PZero, Fn({Y}), Fn({XY, Y}), Fn({X, Y2}), Fn({X2, Y}), Fn({X2, XY, Y2})}
Dividends ==
    CASE Size = 1 -> {Fn(D) : D \in {E \in SUBSET {<<>>, X, Y, XY, X2, Y2, <<2, 1>>} : Cardinality(E) <= 3}}
      [] OTHER -> {Fn(D) : D \in {E \in SUBSET {<<>>, X, Y, <<1, 2>>, <<2, 1>>, <<3>>} : Cardinality(E) <= 4}}
Lists == {<<>>} \cup {<<g>> : g \in Divisors} \cup (Divisors \X Divisors)
         \cup (IF Size = 3 THEN Divisors \X Divisors \X Divisors ELSE {})

Init ==
    /\ ord \in Orders
    /\ f \in Dividends
    /\ gs \in Lists
    /\ p = f /\ qs = [i \in 1..Len(gs) |-> PZero] /\ r = PZero
    /\ first = TRUE /\ pc = "divide"

Usable == {i \in 1..Len(gs) : gs[i] # PZero /\ MDivides(PLm(ord, gs[i]), PLm(ord, p))}
Reduce ==
    /\ pc = "divide" /\ p # PZero /\ Usable # {}
    /\ \E i \in Usable :
          LET c == FDiv(F, PLc(ord, p), PLc(ord, gs[i]))
              k == MQuo(PLm(ord, p), PLm(ord, gs[i]))
          IN  /\ p' = PSub(F, p, PMulTerm(F, c, k, gs[i]))
              /\ qs' = [qs EXCEPT ![i] = PAdd(F, @, PTerm(F, c, k))]
              /\ first' = (first /\ i = Min(Usable))
    /\ UNCHANGED <<ord, f, gs, r, pc>>
Shift ==
    /\ pc = "divide" /\ p # PZero /\ Usable = {}
    /\ r' = PAdd(F, r, PTerm(F, PLc(ord, p), PLm(ord, p)))
    /\ p' = PDropLt(ord, p)
    /\ UNCHANGED <<ord, f, gs, qs, first, pc>>
Stop ==
    /\ pc = "divide" /\ p = PZero /\ pc' = "done"
    /\ UNCHANGED <<ord, f, gs, p, qs, r, first>>
Next == Reduce \/ Shift \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminates == <>(pc = "done")
Descends == [][p # PZero /\ p' # PZero /\ p' # p => MCmp(ord, PLm(ord, p'), PLm(ord, p)) < 0]_vars

Sum == PAdd(F, PAdd(F, Recombine(F, qs, gs, 1), p), r) = f
Bounded ==
    /\ \A i \in 1..Len(gs) : qs[i] # PZero =>
          gs[i] # PZero /\ MCmp(ord, MMul(PLm(ord, qs[i]), PLm(ord, gs[i])), PLm(ord, f)) <= 0
    /\ r # PZero => MCmp(ord, PLm(ord, r), PLm(ord, f)) <= 0
    \* the remainder is above what is left
    /\ p # PZero => \A m \in DOMAIN r : MCmp(ord, m, PLm(ord, p)) > 0
Reduced == Irreducible(ord, r, gs)
AsOperators == pc = "done" /\ first => r = PRem(F, ord, f, gs) /\ qs = Quotients(F, ord, f, gs)
Confluent == pc = "done" /\ IsGroebner(F, ord, SelectSeq(gs, LAMBDA g : g # PZero)) => r = PRem(F, ord, f, gs)

Start == pc = "divide" /\ p = f /\ r = PZero /\ \A i \in 1..Len(qs) : qs[i] = PZero
Ts(g) == LET s == Listed(DOMAIN g) IN [i \in 1..Len(s) |-> <<g[s[i]], s[i]>>]
Typed(T, e) == e @@ [F |-> F, T |-> T]
Script(T) ==
    <<Typed(T, [op |-> "p.new", d |-> 0, ts |-> Ts(f)])>>
    \o [i \in 1..Len(gs) |-> Typed(T, [op |-> "p.new", d |-> i, ts |-> Ts(gs[i])])]
    \o <<Typed(T, [op |-> "p.divide", ord |-> ord, tame |-> 1, d |-> 5, a |-> 0, gs |-> [i \in 1..Len(gs) |-> i]])>>
Replayed == Start => \A T \in Types : Emit(Script(T))
=============================================================================
