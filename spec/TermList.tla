------------------------------ MODULE TermList ------------------------------
(***************************************************************************)
(* Two registers of polynomials as the library stores them: lists of       *)
(* terms, in no particular order (C07, C08).                               *)
(*                                                                         *)
(* Every operation is carried out on the lists, term by term: a term is    *)
(* merged into a list by looking for its monomial, adding coefficients and *)
(* dropping the term if they cancel.  Checked is that the lists stay clean *)
(* (no zero terms, no monomial twice, no trailing zeros) and that the      *)
(* operations refine those on functions from monomials to coefficients     *)
(* (Polynomial.tla), which satisfy the laws of a commutative ring.         *)
(***************************************************************************)
EXTENDS PolyOps, Replay

CONSTANTS F,          \* the field
          Types,      \* Rust types the behaviours are replayed with
          Size        \* which monomials the registers may hold
VARIABLES reg, h

Two == 0..1
Monos == CASE Size = 1 -> {<<>>, <<1>>}
           [] Size = 2 -> {<<>>, <<1>>, <<0, 1>>}
           [] Size = 3 -> {<<>>, <<1>>, <<0, 1>>, <<1, 1>>}
           [] OTHER -> {<<>>, <<1>>, <<2>>, <<0, 1>>}
Coefs == IF F = 0 THEN {QInt(1), QInt(-1)} ELSE 1..(F - 1)

\* -------------------------------------------------- operations on lists
Merge(s, t) ==
    IF FIsZero(F, t[1]) THEN s
    ELSE LET I == {i \in 1..Len(s) : s[i][2] = t[2]}
         IN  IF I = {} THEN Append(s, t)
             ELSE LET i == Min(I)
                      c == FAdd(F, s[i][1], t[1])
                  IN  IF FIsZero(F, c) THEN RemoveAt1(s, i) ELSE [s EXCEPT ![i] = <<c, t[2]>>]
RECURSIVE MergeAll(_, _)
MergeAll(s, ts) == IF ts = <<>> THEN s ELSE MergeAll(Merge(s, ts[1]), Tail(ts))
NegL(s) == [i \in 1..Len(s) |-> <<FNeg(F, s[i][1]), s[i][2]>>]
TermTimes(t, s) == IF FIsZero(F, t[1]) THEN <<>> ELSE [i \in 1..Len(s) |-> <<FMul(F, t[1], s[i][1]), MMul(t[2], s[i][2])>>]
AddL(s, t) == MergeAll(s, t)
SubL(s, t) == MergeAll(s, NegL(t))
RECURSIVE MulL(_, _)
MulL(s, t) == IF s = <<>> THEN <<>> ELSE MergeAll(TermTimes(s[1], t), MulL(Tail(s), t))
ScaleL(c, s) == TermTimes(<<c, <<>>>>, s)
NewL(ts) == MergeAll(<<>>, ts)

\* ---------------------------------------------------------------- calls
C(x) == [F |-> F, T |-> "", op |-> x]
Terms == {<<c, m>> : c \in Coefs, m \in Monos} \cup {<<FZero(F), <<>>>>}
News == {<<<<c, m>>>> : c \in Coefs, m \in Monos}
NewCalls == [op : {"p.new"}, d : Two, ts : News]
PP == [op : {"p.add", "p.sub", "p.mul"}, d : Two, a : Two, b : Two, fm : {0}]
PT == [op : {"p.addt", "p.subt", "p.tsub"}, d : Two, a : Two, t : Terms, fm : {0}]
Un == [op : {"p.neg", "p.copy"}, d : Two, a : Two, fm : {0}]
Calls == NewCalls \cup PP \cup PT \cup Un

Result(e) ==
    CASE e.op = "p.new" -> NewL(e.ts)
      [] e.op = "p.add" -> AddL(reg[e.a], reg[e.b])
      [] e.op = "p.sub" -> SubL(reg[e.a], reg[e.b])
      [] e.op = "p.mul" -> MulL(reg[e.a], reg[e.b])
      [] e.op = "p.addt" -> Merge(reg[e.a], e.t)
      [] e.op = "p.subt" -> SubL(reg[e.a], <<e.t>>)
      [] e.op = "p.tsub" -> MergeAll(NegL(reg[e.a]), <<e.t>>)
      [] e.op = "p.neg" -> NegL(reg[e.a])
      [] e.op = "p.copy" -> reg[e.a]

Typed(T, e) == e @@ [F |-> F, T |-> T]
InBox(s) == \A i \in 1..Len(s) : s[i][2] \in Monos /\ s[i][1] \in Coefs

Init == reg = [i \in Two |-> <<>>] /\ h = <<>>
Next == \E e \in Calls :
    LET s == Result(e)
    IN  InBox(s) /\ reg' = [reg EXCEPT ![e.d] = s] /\ h' = Append(h, e)
View == reg

Clean == \A i \in Two : CleanL(F, reg[i])
\* the abstraction function, and the refinement of every call
Abstract == [p |-> [i \in Two |-> Abs(F, reg[i])]]
Refines == \A e \in Calls :
    LET s == Result(e)
        c == Typed("", e)
    IN  CleanL(F, s) /\ Abs(F, s) = Exact(c, Operands(c, Abstract))
x == Abstract.p[0]
y == Abstract.p[1]
Faithful == (x = y) = ({reg[0][i] : i \in 1..Len(reg[0])} = {reg[1][i] : i \in 1..Len(reg[1])})
Third == {Abs(F, s) : s \in News} \cup {PAdd(F, Abs(F, s), POne(F)) : s \in News}
Ring ==
    /\ PAdd(F, x, y) = PAdd(F, y, x) /\ PMul(F, x, y) = PMul(F, y, x)
    /\ PSub(F, x, y) = PAdd(F, x, PNeg(F, y)) /\ PSub(F, x, x) = PZero /\ PNeg(F, PNeg(F, x)) = x
    /\ PMul(F, x, POne(F)) = x /\ PMul(F, x, PZero) = PZero
    /\ x # PZero /\ y # PZero => PMul(F, x, y) # PZero
    /\ PMul(F, PSub(F, x, y), PAdd(F, x, y)) = PSub(F, PMul(F, x, x), PMul(F, y, y))
    /\ \A z \in Third :
         /\ PAdd(F, PAdd(F, x, y), z) = PAdd(F, x, PAdd(F, y, z))
         /\ PMul(F, PMul(F, x, y), z) = PMul(F, x, PMul(F, y, z))
         /\ PMul(F, z, PAdd(F, x, y)) = PAdd(F, PMul(F, z, x), PMul(F, z, y))

\* ----------------------------------------------------------- behaviours
\* the form of the operands (owned or borrowed) varies with the state
Fm(k) == (Len(reg[0]) + 2 * Len(reg[1]) + k) % 8
SomeTerms == {<<c, m>> : c \in {FOne(F), FNeg(F, FOne(F)), FZero(F)}, m \in Monos}
All ==
    Listed({[op |-> o, d |-> 2, a |-> i, b |-> j, fm |-> Fm(i + 2 * j)] :
            o \in {"p.add", "p.sub", "p.mul"}, i \in Two, j \in Two})
    \o <<[op |-> "p.mul", d |-> 3, a |-> 0, b |-> 1, fm |-> 0], [op |-> "p.obs", a |-> 3],
         [op |-> "p.mul", d |-> 4, a |-> 0, b |-> 0, fm |-> 1], [op |-> "p.mul", d |-> 5, a |-> 1, b |-> 1, fm |-> 2],
         [op |-> "p.sub", d |-> 4, a |-> 4, b |-> 5, fm |-> 3],
         [op |-> "p.sub", d |-> 2, a |-> 0, b |-> 1, fm |-> 3], [op |-> "p.obs", a |-> 2],
         [op |-> "p.add", d |-> 5, a |-> 0, b |-> 1, fm |-> 2], [op |-> "p.mul", d |-> 5, a |-> 2, b |-> 5, fm |-> 1],
         [op |-> "p.sub", d |-> 5, a |-> 4, b |-> 5, fm |-> 0], [op |-> "p.obs", a |-> 5]>>
    \o Listed({[op |-> o, d |-> 2, a |-> 0, t |-> t, fm |-> Fm(Len(t[2]))] :
               o \in {"p.addt", "p.subt", "p.tsub", "p.tmul"}, t \in SomeTerms})
    \o Listed([op : {"p.neg"}, d : {2}, a : {0}, fm : Two] \cup [op : {"p.scale"}, d : {3}, a : {0}, c : Coefs \cup {FZero(F)}, fm : Two]
              \cup [op : {"p.div"}, d : {3}, a : {0}, c : Coefs, fm : Two])
Script(T) == [i \in 1..(Len(h) + Len(All)) |-> Typed(T, IF i <= Len(h) THEN h[i] ELSE All[i - Len(h)])]
Replayed == \A T \in Types : Emit(Script(T))
=============================================================================
