----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Trace validation with total verdicts.  The recorded execution is read   *)
(* from the ndjson file $TRACE.  A trace specification consumes one line   *)
(* per step and appends the name of every clause of the specification the  *)
(* line violates to `bad`; the verdict is written to $VERDICT at the end.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

Clause(name, ok) == [c |-> name, ok |-> ok]
(* the failing clauses among cs (a sequence of Clause records) at line k *)
Failing(cs, k) ==
  LET f == SelectSeq(cs, LAMBDA r : ~r.ok)
  IN [i \in 1..Len(f) |-> [line |-> k, clause |-> f[i].c]]
Note(cs) == bad' = IF Len(bad) > 60 THEN bad ELSE bad \o Failing(cs, l)
WriteVerdict ==
  /\ l = Len(Trace) + 1
  /\ JsonSerialize(IOEnv.VERDICT, [bad |-> bad, lines |-> Len(Trace)])
  /\ l' = l + 1
  /\ bad' = bad
=============================================================================
