------------------------------- MODULE Metrics -------------------------------
(* What the evaluators report: corpus BLEU and n-gram novelty of generated     *)
(* sentences, estimation errors of Bernoulli chains, quality of a partition.   *)
EXTENDS RealArith, Integers, Sequences, FiniteSets
LOCAL Els(s) == {s[i] : i \in 1..Len(s)}
LOCAL MinI(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumI(_)
SumI(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumI(Tail(s))
LOCAL MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

(* ---- text *)
Grams(s, n) == IF Len(s) < n THEN <<>> ELSE [i \in 1..(Len(s) - n + 1) |-> SubSeq(s, i, i + n - 1)]
Times(g, gs) == Cardinality({i \in 1..Len(gs) : gs[i] = g})
(* occurrences of the n-grams of one sentence that its references account for *)
Clipped(h, refs, n) ==
  LET hs == Grams(h, n)
      D == Els(hs)
      cap(g) == MaxOf({0} \cup {Times(g, Grams(refs[r], n)) : r \in 1..Len(refs)})
      RECURSIVE go(_)
      go(S) == IF S = {} THEN 0 ELSE LET g == CHOOSE g \in S : TRUE IN MinI(Times(g, hs), cap(g)) + go(S \ {g})
  IN go(D)
Total(h, n) == IF Len(h) - n + 1 > 1 THEN Len(h) - n + 1 ELSE 1
(* length of the reference nearest in length, the shorter one in a tie *)
Closest(h, refs) ==
  LET L == {Len(refs[r]) : r \in 1..Len(refs)}
      d(k) == IF k < Len(h) THEN Len(h) - k ELSE k - Len(h)
  IN CHOOSE k \in L : \A m \in L : d(k) < d(m) \/ (d(k) = d(m) /\ k <= m)
(* hyps[i] is compared with refs[i] (a sequence of sentences) *)
Matched(hyps, refs, n) == SumI([i \in 1..Len(hyps) |-> Clipped(hyps[i], refs[i], n)])
Counted(hyps, n) == SumI([i \in 1..Len(hyps) |-> Total(hyps[i], n)])
Brevity(hyps, refs) ==
  LET c == SumI([i \in 1..Len(hyps) |-> Len(hyps[i])])
      r == SumI([i \in 1..Len(hyps) |-> Closest(hyps[i], refs[i])])
  IN IF c > r THEN "1.0" ELSE IF c = 0 THEN "0.0" ELSE RExp(RSub(1, RDiv(r, c)))
Bleu(hyps, refs, N) ==
  LET m == [n \in 1..N |-> Matched(hyps, refs, n)] IN
  IF \E n \in 1..N : m[n] = 0 THEN "0.0"
  ELSE RMul(Brevity(hyps, refs), RExp(RDiv(RSum([n \in 1..N |-> RLog(RDiv(m[n], Counted(hyps, n)))]), N)))
CorpusBleu(gen, refs, N) == Bleu(gen, [i \in 1..Len(gen) |-> refs], N)
Others(gen, i) == SubSeq(gen, 1, i - 1) \o SubSeq(gen, i + 1, Len(gen))
SelfBleu(gen, N) == Bleu(gen, [i \in 1..Len(gen) |-> Others(gen, i)], N)
RECURSIVE AllGrams(_, _)
AllGrams(ss, n) == IF ss = <<>> THEN <<>> ELSE Grams(Head(ss), n) \o AllGrams(Tail(ss), n)
(* distinct n-grams absent from the references, per n-gram generated *)
Novel(gen, refs, n) ==
  LET a == AllGrams(gen, n) IN RDiv(Cardinality(Els(a) \ Els(AllGrams(refs, n))), Len(a))
(* n-grams generated exactly once, per n-gram generated *)
Single(gen, n) ==
  LET a == AllGrams(gen, n) IN RDiv(Cardinality({g \in Els(a) : Times(g, a) = 1}), Len(a))

(* ---- Bernoulli estimation: xs[t][b][i] states, p[i] means *)
Avg(s) == RDiv(RSum(s), Len(s))
Sq(a) == RMul(a, a)
ColMean(rows, i) == Avg([t \in 1..Len(rows) |-> rows[t][i]])
ColVar(rows, i) == LET m == ColMean(rows, i) IN RDiv(RSum([t \in 1..Len(rows) |-> Sq(RSub(rows[t][i], m))]), Len(rows) - 1)
(* errors of one group of draws (a sequence of vectors), coordinate by coordinate *)
MeanErr(rows, p) == [i \in 1..Len(p) |-> Sq(RSub(ColMean(rows, i), p[i]))]
VarErr(rows, p) == [i \in 1..Len(p) |-> Sq(RSub(ColVar(rows, i), RMul(p[i], RSub(1, p[i]))))]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Chain(xs, b) == [t \in 1..Len(xs) |-> xs[t][b]]
ChainErrs(xs, p, F(_, _)) == Cat([b \in 1..Len(xs[1]) |-> F(Chain(xs, b), p)])
(* starts (0-based) of the full windows *)
Windows(T, size, stride) == LET n == IF T < size THEN 0 ELSE (T - size) \div stride + 1 IN [k \in 1..n |-> (k - 1) * stride]

(* ---- partition of a graph without weights or self loops; E set of pairs <<u, v>>, u < v *)
CutEdges(E, g) == Cardinality({e \in E : g[e[1]] # g[e[2]]})
CutRatio(E, g) == RDiv(CutEdges(E, g), Cardinality(E))
GroupSize(g, c) == Cardinality({i \in 1..Len(g) : g[i] = c})
(* probability that two nodes drawn independently differ in group, relative to an even split *)
Balance(g, K) ==
  LET n == Len(g)
      same == SumI([c \in 1..K |-> GroupSize(g, c - 1) * GroupSize(g, c - 1)])
  IN RDiv((n * n - same) * K, (K - 1) * n * n)
=============================================================================
