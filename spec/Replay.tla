------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Behaviours for the implementation.  A design machine prints a script,   *)
(* that is a sequence of calls; the conformance driver makes these calls   *)
(* on the library, and the recorded outcomes are checked like any other    *)
(* history.                                                                *)
(***************************************************************************)
EXTENDS Sequences, Json, TLC

Emit(script) == PrintT("REPLAY" \o ToJson(script))

\* the elements of a finite set, in some order
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listed(S \ {x})
=============================================================================
