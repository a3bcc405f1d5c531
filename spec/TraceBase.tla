----------------------------- MODULE TraceBase ------------------------------
(***************************************************************************)
(* Checking recorded executions of the library against the specification.  *)
(*                                                                         *)
(* A trace is a sequence of independent histories, each opened by a        *)
(* "begin" line.  A line records one call: its operation, its arguments    *)
(* (values, or indices of registers that hold values produced earlier in   *)
(* the history) and its outcome,                                           *)
(*     [k |-> "v", v |-> value]        the call returned                   *)
(*     [k |-> "panic", m |-> kind]     the call panicked: "overflow" (i64  *)
(*                                     or u8 arithmetic), "zero" (division *)
(*                                     by zero) or "other"                 *)
(*     [k |-> "nonfinite"]             a float result was not finite       *)
(*     [k |-> "timeout"]               the call did not return             *)
(*     [k |-> "abort"]                 the call ended the process          *)
(*                                                                         *)
(* The register file `reg` is the state of the specification.  A trace     *)
(* module defines how each line is judged: the set of properties it        *)
(* violates and the registers afterwards.  Histories are independent, so   *)
(* there is one initial state per history and TLC's workers check them in  *)
(* parallel.  A history whose state can no longer be followed (a value     *)
(* was returned that is not one of the domain) is `dead`, and not judged   *)
(* further.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

Begins == {i \in 1..Len(Trace) : Trace[i].op = "begin"}

IsVal(e)   == e.out.k = "v"
IsPanic(e) == e.out.k = "panic"

\* the judgements a trace module returns
Verdict(bad, reg)     == [bad |-> bad, reg |-> reg, dead |-> FALSE]
DeadVerdict(bad, reg) == [bad |-> bad, reg |-> reg, dead |-> TRUE]

Blame(ok, id) == IF ok THEN {} ELSE {id}
=============================================================================
