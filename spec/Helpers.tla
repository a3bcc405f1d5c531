------------------------------ MODULE Helpers -------------------------------
(***************************************************************************)
(* The four enumeration helpers as machines (C20).                         *)
(*   box     a cursor that walks over a rectangle, row by row              *)
(*   digits  repeated division: what was taken off and what is left        *)
(*   mats    an odometer whose wheels show values                          *)
(*   max     a scan that remembers where it saw the largest element        *)
(* Each stops, and its history is complete and without repetition.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, BigInt, Field, Replay

CONSTANTS MaxBox, MaxNum, MaxBase, MaxLen, MaxCells
VARIABLES what, par, out, cur, pc
vars == <<what, par, out, cur, pc>>

RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
SetOf(s) == {s[i] : i \in 1..Len(s)}
Elems == -2..2
Seqs(k) == UNION {[1..i -> Elems] : i \in 1..k}

Init ==
    /\ pc = "run" /\ out = <<>>
    /\ \/ what = "box" /\ \E m, n \in 0..MaxBox : par = <<m, n>> /\ cur = <<0, 0>>
       \/ what = "digits" /\ \E k \in 0..MaxNum, b \in 2..MaxBase : par = <<k, b>> /\ cur = <<k>>
       \/ what = "mats" /\ \E m, n \in 0..3, q \in 0..3 :
             /\ m * n <= MaxCells
             /\ par = <<m, n, q>> /\ cur = [i \in 1..m * n |-> 0]
       \/ what = "max" /\ \E s \in Seqs(MaxLen) : par = s /\ cur = <<1, 1>>

Halt == pc' = "done" /\ UNCHANGED <<what, par, out, cur>>
Box ==
    /\ what = "box" /\ pc = "run"
    /\ IF cur[1] = par[1] \/ par[2] = 0 THEN Halt
       ELSE /\ out' = Append(out, cur)
            /\ cur' = IF cur[2] + 1 = par[2] THEN <<cur[1] + 1, 0>> ELSE <<cur[1], cur[2] + 1>>
            /\ UNCHANGED <<what, par, pc>>
DigitStep ==
    /\ what = "digits" /\ pc = "run"
    /\ IF cur[1] = 0 THEN Halt
       ELSE out' = Append(out, cur[1] % par[2]) /\ cur' = <<cur[1] \div par[2]>> /\ UNCHANGED <<what, par, pc>>
\* wheel 1 turns fastest; after the last position all wheels would be at 0 again
Turned == LET stuck == {i \in 1..Len(cur) : \A k \in 1..i : cur[k] = par[3] - 1}
          IN  [i \in 1..Len(cur) |->
                 IF i \in stuck THEN 0 ELSE IF i = 1 \/ (i - 1) \in stuck THEN cur[i] + 1 ELSE cur[i]]
Odometer ==
    /\ what = "mats" /\ pc = "run"
    /\ IF cur # <<>> /\ par[3] = 0 THEN Halt
       ELSE /\ out' = Append(out, cur) /\ cur' = Turned
            /\ pc' = IF \A i \in 1..Len(cur) : Turned[i] = 0 THEN "done" ELSE "run"
            /\ UNCHANGED <<what, par>>
\* either of two equal elements will do
Scan ==
    /\ what = "max" /\ pc = "run"
    /\ IF cur[1] = Len(par) THEN Halt
       ELSE LET k == cur[1] + 1
            IN  /\ \/ par[k] >= par[cur[2]] /\ cur' = <<k, k>>
                   \/ par[k] <= par[cur[2]] /\ cur' = <<k, cur[2]>>
                /\ UNCHANGED <<what, par, out, pc>>
Next == Box \/ DigitStep \/ Odometer \/ Scan
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc = "done")

Done == pc = "done"
NoRepeats == (what \in {"box", "mats"}) => Cardinality(SetOf(out)) = Len(out)
BoxComplete ==
    (what = "box" /\ Done) =>
    /\ SetOf(out) = {<<a, b>> : a \in 0..par[1] - 1, b \in 0..par[2] - 1}
    /\ \A k \in 1..Len(out) : out[k] = <<(k - 1) \div par[2], (k - 1) % par[2]>>
RECURSIVE Value(_, _, _)
Value(s, i, b) == IF i > Len(s) THEN 0 ELSE s[i] + b * Value(s, i + 1, b)
DigitsValue ==
    what = "digits" =>
    /\ par[1] = Value(out, 1, par[2]) + cur[1] * Pow(par[2], Len(out))
    /\ \A i \in 1..Len(out) : out[i] \in 0..par[2] - 1
    /\ Done => cur[1] = 0 /\ (out # <<>> => out[Len(out)] # 0)
MatsComplete ==
    (what = "mats" /\ Done) =>
    /\ Len(out) = Pow(par[3], par[1] * par[2])
    /\ \A k \in 1..Len(out) : \A i \in 1..par[1] * par[2] : out[k][i] = ((k - 1) \div Pow(par[3], i - 1)) % par[3]
MaxPrefix == what = "max" => \A k \in 1..cur[1] : par[k] <= par[cur[2]]

Start == pc = "run" /\ CASE what = "box" -> cur = <<0, 0>> /\ out = <<>>
                         [] what = "digits" -> out = <<>>
                         [] what = "mats" -> out = <<>>
                         [] OTHER -> cur = <<1, 1>>
Vals(q) == SubSeq(<<QInt(3), QInt(-1), <<ZOne, ZInt(2)>>>>, 1, q)
Call ==
    CASE what = "box" -> <<[op |-> "u.box", m |-> par[1], n |-> par[2]]>>
      [] what = "digits" -> <<[op |-> "u.digits", n |-> ZInt(par[1]), b |-> ZInt(par[2])]>>
      [] what = "mats" -> <<[op |-> "u.mats", F |-> 0, T |-> "Rational", m |-> par[1], n |-> par[2], vals |-> Vals(par[3])],
                            [op |-> "u.mats", F |-> 101, T |-> "Gf", m |-> par[1], n |-> par[2], vals |-> SubSeq(<<7, 0, 100>>, 1, par[3])]>>
      [] OTHER -> <<[op |-> "u.max", s |-> par]>>
Replayed == Start => Emit(Call)
=============================================================================
