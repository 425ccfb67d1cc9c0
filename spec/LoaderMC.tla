------------------------------- MODULE LoaderMC -------------------------------
(* Design: P readers walk the stream concurrently in any interleaving, each   *)
(* emitting full batches and then padding; plus the reduction of a formula    *)
(* to an independent set problem.                                            *)
EXTENDS Loader, SequencesExt, TLC
CONSTANTS MaxN, MaxB, MaxP
VARIABLES n, B, P, pos, buf, out

vars == <<n, B, P, pos, buf, out>>
Init == /\ n \in 0..MaxN /\ P \in 1..MaxP /\ B \in {b \in 1..MaxB : b % P = 0}
        /\ pos = [p \in 0..(P-1) |-> 0] /\ buf = [p \in 0..(P-1) |-> <<>>] /\ out = [p \in 0..(P-1) |-> <<>>]
L == B \div P
Read(p) == /\ pos[p] < n /\ Len(buf[p]) < L
           /\ pos' = [pos EXCEPT ![p] = @ + 1]
           /\ buf' = IF pos[p] % P = p THEN [buf EXCEPT ![p] = Append(@, pos[p])] ELSE buf
           /\ UNCHANGED <<n, B, P, out>>
Emit(p) == /\ Len(buf[p]) = L
           /\ out' = [out EXCEPT ![p] = Append(@, buf[p])] /\ buf' = [buf EXCEPT ![p] = <<>>]
           /\ UNCHANGED <<n, B, P, pos>>
Pad(p) == /\ pos[p] = n /\ Len(buf[p]) < L /\ Len(out[p]) < NumBatches(n, B)
          /\ out' = [out EXCEPT ![p] = Append(@, buf[p] \o [i \in 1..(L - Len(buf[p])) |-> -1])]
          /\ buf' = [buf EXCEPT ![p] = <<>>]
          /\ UNCHANGED <<n, B, P, pos>>
Next == \E p \in 0..(P-1) : Read(p) \/ Emit(p) \/ Pad(p)
Fair == WF_vars(Next)
Spec == Init /\ [][Next]_vars /\ Fair
(* every process's output is always a prefix of its stream *)
PrefixOfStream == \A p \in 0..(P-1) : Len(out[p]) <= NumBatches(n, B)
                    /\ \A b \in 1..Len(out[p]) : out[p][b] = Stream(n, B, P, p)[b]
(* every instance is in exactly one place of one process's stream *)
OnceEach == \A i \in 0..(n-1) :
  Cardinality({<<p, b, k>> \in (0..(P-1)) \X (1..NumBatches(n, B)) \X (1..L) : Stream(n, B, P, p)[b][k] = i}) = 1
Done == \A p \in 0..(P-1) : Len(out[p]) = NumBatches(n, B)
Complete == <>Done
=============================================================================
