--------------------------------- MODULE Infill ---------------------------------
(***************************************************************************)
(* Text infilling: the task set, the masked pseudo-likelihood, and the     *)
(* run that samples every sentence several times and keeps the likeliest.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, RealArith
(* ---- task set ---- *)
(* line: [words, id]; fits if its length is within bounds *)
Fits(c, line) == Len(line.words) >= c.min /\ Len(line.words) <= c.max
(* one step of the scan over the shuffled lines *)
Scan(c, quota, st, line) ==
  IF st.n < quota /\ Fits(c, line) THEN [n |-> st.n + 1, task |-> Append(st.task, line.id), ref |-> st.ref]
  ELSE [st EXCEPT !.ref = Append(@, line.id)]
MaskedAt(words, masked) == {i \in 1..Len(words) : words[i] # masked[i]}
(* ---- selection ---- *)
Dominates(v, S) == \A i \in S : \A j \in (1..Len(v)) \ S : RLe(v[j], v[i])
IsTopK(v, k, S) == Cardinality(S) = (IF Len(v) < k THEN Len(v) ELSE k) /\ Dominates(v, S)
=============================================================================
