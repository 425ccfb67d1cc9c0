------------------------------ MODULE MathPrims ------------------------------
(***************************************************************************)
(* Sampling primitives the samplers are built from.                        *)
(* lp is a sequence of normalised log-probabilities over classes 1..C.     *)
(***************************************************************************)
EXTENDS Kernels

(* probability of an ordered draw f with / without replacement *)
ReplLL(lp, f) == RSum([k \in 1..Len(f) |-> lp[f[k]]])
SeqProb(lp, f, repl) == IF repl THEN RExp(ReplLL(lp, f))
                        ELSE IF \E a, b \in 1..Len(f) : a # b /\ f[a] = f[b] THEN "0.0"
                        ELSE RExp(NoReplLL(lp, f))
(* log-probability of each position of f given the earlier ones *)
PosLL(lp, f, repl) ==
  LET used[k \in 0..Len(f)] == IF k = 0 THEN "0.0" ELSE RAdd(used[k - 1], RExp(lp[f[k]]))
  IN [k \in 1..Len(f) |-> IF repl THEN lp[f[k]] ELSE RSub(lp[f[k]], RLog(RSub(1, used[k - 1])))]
CountVec(C, f) == [i \in 1..C |-> Cardinality({k \in 1..Len(f) : f[k] = i})]
(* probability that the multiset of draws has count vector v *)
CountProb(lp, L, v, repl) ==
  LET C == Len(lp)
      fs == SetToSeq({f \in SeqsOf(1..C, L) : CountVec(C, f) = v})
  IN RSum([k \in 1..Len(fs) |-> SeqProb(lp, fs[k], repl)])

RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
(* Pascal's rule, so intermediate values stay small *)
RECURSIVE Choose(_, _)
Choose(n, r) == IF r = 0 \/ r = n THEN 1 ELSE Choose(n - 1, r - 1) + Choose(n - 1, r)
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))
=============================================================================
