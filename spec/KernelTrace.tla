---------------------------- MODULE KernelTrace ----------------------------
(***************************************************************************)
(* Validates recorded transitions of the real samplers against Kernels.    *)
(*   "kernel": N independent one-step runs from every state; cnt[s][t] is  *)
(*             how often t was reached from s.                             *)
(*   "accs"  : single-chain steps with the reported acceptance statistic.  *)
(*   "meanacc": mean acceptance reported over N steps of a batch.          *)
(*   "scale" : chains started from exact samples of many independent copies *)
(*             of one small target, after some steps.                      *)
(*   "flat"  : a constant target on a large space, all chains from one     *)
(*             state: coordinates moved by the first step, and the chains   *)
(*             after some steps.                                           *)
(*   "raised": the implementation raised instead of stepping.              *)
(***************************************************************************)
EXTENDS Kernels, TraceBase

(* a count is plausible for N trials of probability p: 6.5 standard        *)
(* deviations, a Poisson floor and single-precision slack                  *)
Plausible(n, N, p) ==
  RLe(RAbs(RSub(n, RMul(N, p))),
      RAdd(RMul("6.5", RSqrt(RMul(N, RMul(p, RMax(0, RSub(1, p)))))),
           RAdd(14, RMul(N, "0.0001"))))

KernelClauses(e) ==
  LET c == e.cfg
      m == [ll |-> e.ll, gr |-> e.gr]
      am == AllMoves(c, m)
      k == KernelFrom(c, am)
      pi == Pi(c, m)
      N == e.N
      (* empirical global balance: push pi through the observed frequencies *)
      inflow(t) == RSum([s \in S(c) |-> RMul(pi[s], RDiv(e.cnt[s][t], N))])
      var(t) == RSum([s \in S(c) |-> RDiv(RMul(RMul(pi[s], pi[s]), RMul(k[s][t], RMax(0, RSub(1, k[s][t])))), N)])
  IN << Clause("spec-moves-normalised", RowsNormalised(c, am)),
        Clause("spec-kernel-stationary", e.balance = 0 \/ Stationary(c, k, pi)),
        Clause("no-sample-outside-space", e.outside = 0),
        Clause("transition-frequencies",
               \A s, t \in S(c) : Plausible(e.cnt[s][t], N, k[s][t])),
        Clause("empirical-global-balance", e.balance = 0 \/
               \A t \in S(c) : RLe(RAbs(RSub(inflow(t), pi[t])),
                  RAdd(RMul("6.5", RSqrt(var(t))), RAdd("0.0002", RDiv(4, N))))) >>

(* the acceptance probabilities that moves s -> t may report; a rejected    *)
(* move (t = s) may report any of them                                      *)
AccOK(c, am, s, t, acc) ==
  \E j \in 1..Len(am[s]) :
    /\ (t = s \/ am[s][j].y = t)
    /\ RLt("1e-12", am[s][j].q)
    /\ RClose(acc, am[s][j].a, "0.002", "0.002")
AccClauses(e) ==
  LET c == e.cfg
      m == [ll |-> e.ll, gr |-> e.gr]
      am == AllMoves(c, m)
  IN << Clause("reported-acceptance",
          \A r \in 1..Len(e.obs) : AccOK(c, am, e.obs[r][1], e.obs[r][2], e.obs[r][3])) >>

(* the acceptance reported for a batch is the mean over its chains of the   *)
(* acceptance probability of their proposals                               *)
MeanAccClauses(e) ==
  LET c == e.cfg
      am == AllMoves(c, [ll |-> e.ll, gr |-> e.gr])
      mean == TLCEval([s \in S(c) |-> RSum([j \in 1..Len(am[s]) |-> RMul(am[s][j].q, am[s][j].a)])])
      sq == TLCEval([s \in S(c) |-> RSum([j \in 1..Len(am[s]) |-> RMul(am[s][j].q, RMul(am[s][j].a, am[s][j].a))])])
      over(o, f) == RDiv(RSum([b \in 1..Len(o.chains) |-> f[o.chains[b]]]), Len(o.chains))
      var == [s \in S(c) |-> RMax(0, RSub(sq[s], RMul(mean[s], mean[s])))]
      ok(o) == RLe(RAbs(RSub(o.acc, over(o, mean))), RAdd("0.0015", RMul("6.5", RSqrt(RDiv(over(o, var), e.N)))))
  IN << Clause("accept: mean over the chains of the batch", \A k \in 1..Len(e.obs) : ok(e.obs[k])) >>

(* Large spaces, where no kernel can be tabulated.  The target is a product *)
(* of equal copies; stationarity means that exact samples stay exact, in    *)
(* every copy and in all copies together; and equal coordinates (values)    *)
(* are changed (chosen) equally often, since nothing tells them apart.      *)
ScaleClauses(e) ==
  LET z == RLogSumExp(e.ll)
      p == TLCEval([s \in 1..Len(e.ll) |-> RExp(RSub(e.ll[s], z))])
      m == Len(e.cnt)
      all(s) == RSum([i \in 1..m |-> e.cnt[i][s]])
      D == Len(e.moved)
      role(i) == (i - 1) \div m
      mean == TLCEval([r \in 0..(e.g - 1) |-> RDiv(RSum([i \in 1..m |-> e.moved[r * m + i]]), RMul(m, e.N))])
      K == Len(e.arrived)
      total == TLCEval([q \in 0..1 |-> RSum([u \in 1..K |-> IF u % 2 = q THEN e.arrived[u] ELSE 0])])
      size == [q \in 0..1 |-> IF q = 1 THEN (K + 1) \div 2 ELSE K \div 2]
  IN << Clause("large: no sample outside the space", e.outside = 0),
        Clause("large: exact samples stay exact in every copy",
               \A i \in 1..m, s \in 1..Len(e.ll) : Plausible(e.cnt[i][s], e.N, p[s])),
        Clause("large: exact samples stay exact in all copies together",
               \A s \in 1..Len(e.ll) : Plausible(all(s), RMul(m, e.N), p[s])),
        Clause("large: every coordinate moves", \A i \in 1..D : e.moved[i] > 0),
        Clause("large: equal coordinates move equally often",
               e.exch = 0 \/ \A i \in 1..D : Plausible(e.moved[i], e.N, mean[role(i)])),
        Clause("large: equal values are chosen equally often", e.parity = 0 \/
               \A v \in 1..K : Plausible(e.arrived[v], total[v % 2], RDiv(1, size[v % 2]))) >>

(* On a constant target nothing is rejected, so the probability that a      *)
(* coordinate moves in one step has a closed form; for DMALA and DLMC the   *)
(* coordinates are independent copies of the one-coordinate kernel.         *)
FlatProb(c) ==
  CASE c.kind = "randomwalk" -> RMin(RDiv(c.radius, c.D), 1)
    [] c.kind = "gwg" -> RSub(1, RPow(RSub(1, RDiv(1, c.D)), c.flips))
    [] c.kind = "path_auxiliary" -> RDiv(c.flips, c.D)
    [] OTHER -> LET m == [ll |-> [s \in S(c) |-> 0], gr |-> [s \in S(c) |-> IF c.K = 2 THEN <<0>> ELSE << [v \in 1..c.K |-> 0] >>]]
                    ds == TLCEval(ProposalTables(c, m))
                IN RSub(1, KernelRow(c, MovesOf(c, m, ds, 1), 1)[1])
FlatSizes(c, k) ==
  CASE c.kind = "gwg" -> k \in 1..c.flips
    [] c.kind = "path_auxiliary" -> k = c.flips
    [] c.kind \in {"gibbs", "blockgibbs", "hammingball"} -> k <= c.blk
    [] OTHER -> TRUE
FlatClauses(e) ==
  LET p == FlatProb(e.cfg)
      total == TLCEval(RSum(e.shifts))
  IN << Clause("flat: nothing is rejected", RClose(e.acc, 1, "0.002", 0)),
        Clause("flat: number of coordinates a step moves", \A i \in 1..Len(e.sizes) : FlatSizes(e.cfg, e.sizes[i])),
        Clause("flat: every coordinate moves as often as prescribed",
               Len(e.moved) = 0 \/ \A i \in 1..e.cfg.D : Plausible(e.moved[i], e.N, p)),
        Clause("flat: as many coordinates move as prescribed",
               Len(e.moved) = 0 \/ Plausible(RSum(e.moved), RMul(e.N, e.cfg.D), p)),
        Clause("flat: every coordinate is reached", \A i \in 1..e.cfg.D : e.changed[i] > 0),
        Clause("flat: every other value is equally likely",
               \A s \in 1..Len(e.shifts) : Plausible(e.shifts[s], total, RDiv(1, Len(e.shifts)))),
        Clause("indep: flat: no two chains of the batch coincide", e.twins = 0) >>

Clauses(e) == CASE e.ev = "kernel" -> KernelClauses(e)
                [] e.ev = "accs"   -> AccClauses(e)
                [] e.ev = "meanacc" -> MeanAccClauses(e)
                [] e.ev = "scale" -> ScaleClauses(e)
                [] e.ev = "flat" -> FlatClauses(e)
                [] e.ev = "raised" -> << Clause("raised: " \o e.what, FALSE) >>

Init == l = 1 /\ bad = <<>>
Check == l <= Len(Trace) /\ l' = l + 1 /\ Note(Clauses(Trace[l]))
Next == Check \/ WriteVerdict
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
