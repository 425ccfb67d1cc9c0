-------------------------------- MODULE Loader --------------------------------
(***************************************************************************)
(* The instance stream of a graph data set.  n instances in file order are *)
(* dealt to P processes in turn; every process receives batches of B/P     *)
(* entries and all processes receive the same number of batches, the tail  *)
(* filled with dummy entries (index -1).                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CeilDiv(a, b) == (a + b - 1) \div b
NumBatches(n, B) == CeilDiv(n, B)
(* process p's share, in order *)
Share(n, P, p) == LET k == CeilDiv(n - p, P) IN [i \in 1..(IF n > p THEN k ELSE 0) |-> p + (i - 1) * P]
Entry(n, B, P, p, b, i) ==
  LET k == (b - 1) * (B \div P) + i
  IN IF k <= Len(Share(n, P, p)) THEN Share(n, P, p)[k] ELSE -1
Batch(n, B, P, p, b) == [i \in 1..(B \div P) |-> Entry(n, B, P, p, b, i)]
Stream(n, B, P, p) == [b \in 1..NumBatches(n, B) |-> Batch(n, B, P, p, b)]

(* ---- the padded form of one instance g = [n, edges] ----
   p: num_edges, from, to, emask, weight (<<>> when the data has none),
   bfrom, bto, bweight, nmask (<<>> when the problem needs none), nnodes, deg *)
EdgeKey(e) == IF e[1] <= e[2] THEN <<e[1], e[2]>> ELSE <<e[2], e[1]>>
Real(p) == {i \in 1..Len(p.emask) : p.emask[i] = 1}
=============================================================================
