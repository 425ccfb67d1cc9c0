------------------------------- MODULE Sampling -------------------------------
(***************************************************************************)
(* The plain sampling run: burn-in, the mapped chain the effective sample  *)
(* size is computed from, periodic snapshots, and that sample size.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, RealArith

BurnIn(c) == RFloor(RMul(c.L, c.ratio))
Mixing(c) == {s \in 1..c.L : s > BurnIn(c)}
Snapshots(c) == {s \in 1..c.L : s % c.every = 0}
AbsI(a) == IF a < 0 THEN -a ELSE a
(* the statistic: L1 distance of a sample to a reference sample *)
Mapped(y, ref) == LET f[i \in 0..Len(y)] == IF i = 0 THEN 0 ELSE f[i - 1] + AbsI(y[i] - ref[i]) IN f[Len(y)]

(* ---- effective sample size of one chain v[1..N] ---- *)
Mean(v) == RDiv(RSum(v), Len(v))
Centred(v) == LET m == Mean(v) IN [i \in 1..Len(v) |-> RSub(v[i], m)]
(* unbiased autocovariance at lag k *)
AutoCov(d, k) == RDiv(RDot(SubSeq(d, 1, Len(d) - k), SubSeq(d, k + 1, Len(d))), Len(d) - k)
Constant(v) == \A i \in 1..Len(v) : v[i] = v[1]
(* The sum of the autocorrelations stops at the first negative one.  Where  *)
(* an autocorrelation vanishes up to rounding, both readings are admitted:  *)
(* the result is the set of admissible values.                              *)
EssSet(v) ==
  IF Constant(v) THEN {"1"} ELSE
  LET N == Len(v)
      d == Centred(v)
      c0 == AutoCov(d, 0)
      rho == [k \in 0..(N - 1) |-> RDiv(AutoCov(d, k), c0)]
      neg(k) == RLt(rho[k], "-3e-5")
      amb(k) == RLe(RAbs(rho[k]), "3e-5")
      last == IF \E k \in 0..(N - 1) : neg(k) THEN CHOOSE k \in 0..(N - 1) : neg(k) /\ \A j \in 0..(k - 1) : ~neg(j) ELSE N
      stops == {last} \cup {k \in 0..(last - 1) : amb(k)}
      sum(n) == RSum([k \in 1..n |-> RMul(RDiv(N - (k - 1), N), rho[k - 1])])
  IN {RDiv(N, RSub(RMul(2, sum(n)), 1)) : n \in stops}
Lo(S) == CHOOSE a \in S : \A b \in S : RLe(a, b)
Hi(S) == CHOOSE a \in S : \A b \in S : RLe(b, a)
(* chains: sequence of chains *)
EssBounds(chains) ==
  LET e == [i \in 1..Len(chains) |-> EssSet(chains[i])]
  IN [lo |-> Mean([i \in 1..Len(e) |-> Lo(e[i])]), hi |-> Mean([i \in 1..Len(e) |-> Hi(e[i])]),
      exact |-> \A i \in 1..Len(e) : Cardinality(e[i]) = 1,
      std |-> LET v == [i \in 1..Len(e) |-> Lo(e[i])]
                  m == Mean(v)
              IN RSqrt(Mean([i \in 1..Len(v) |-> RMul(RSub(v[i], m), RSub(v[i], m))]))]
=============================================================================
