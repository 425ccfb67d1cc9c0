----------------------------- MODULE SamplingTrace -----------------------------
(* Recorded runs of the real sampling experiment.                              *)
(* e.steps[s][d]: what device d's sampler was given (x) and returned (y);      *)
(* e.mapped: what the evaluator was given; e.metrics etc.: what was saved.     *)
EXTENDS Sampling, TraceBase
Near(a, b) == RClose(a, b, "2e-4", "2e-4")
Fine(a, b) == RClose(a, b, "1e-5", "1e-5")
Concat(f, n) == LET g[i \in 0..n] == IF i = 0 THEN <<>> ELSE g[i - 1] \o f[i] IN g[n]
(* all chains after step s, in order *)
Y(e, s) == Concat([d \in 1..e.D |-> e.steps[s][d].y], e.D)
X(e, s) == Concat([d \in 1..e.D |-> e.steps[s][d].x], e.D)
SeqOfSet(S, n) == [i \in 1..Cardinality(S) |-> CHOOSE t \in S : Cardinality({u \in S : u <= t}) = i]
(* the chains a column of snapshots follows *)
Follows(e, i) == LET t == SeqOfSet(Snapshots(e), e.L) IN {k \in 1..e.B : \A j \in 1..Len(t) : e.snaps[j][i] = Y(e, t[j])[k]}
Cols(m, k) == [i \in 1..Len(m) |-> m[i][k]]
EssClauses(name, m, B, ess) ==
  LET b == EssBounds([k \in 1..B |-> Cols(m, k)])
  IN << Clause(name \o ": mean effective sample size of the chains",
          /\ RLe(b.lo, RAdd(ess[1], RMul("3e-4", RAdd(1, RAbs(ess[1])))))
          /\ RLe(ess[1], RAdd(b.hi, RMul("3e-4", RAdd(1, RAbs(b.hi)))))),
        Clause(name \o ": spread of the effective sample size", ~b.exact \/ RClose(ess[2], b.std, "2e-2", "2e-3")) >>
RunClauses(e) ==
  LET complete == /\ Len(e.steps) = e.L
                  /\ \A s \in 1..e.L : Len(e.steps[s]) = e.D /\ \A d \in 1..e.D : e.steps[s][d].linked
                  /\ \A s \in 1..e.L : Len(Y(e, s)) = e.B
      mix == SeqOfSet(Mixing(e), e.L)
      n == Len(mix)
  IN << Clause("run: every chain takes chain_length steps, each continuing the last", complete),
        Clause("run: results saved once", Len(e.metrics) = 1) >> \o
     IF ~complete \/ Len(e.metrics) # 1 THEN <<>> ELSE
     << Clause("run: chains start from the initial samples", X(e, 1) = e.x0),
        Clause("run: fresh randomness for every step and device",
          Cardinality({e.steps[t[1]][t[2]].key : t \in (1..e.L) \X (1..e.D)}) = e.L * e.D),
        Clause("run: the evaluated chain is the distance to one reference sample after burn-in",
          /\ Len(e.mapped) = n
          /\ \E r \in 1..Len(e.refs) : \A i \in 1..n : Len(e.mapped[i]) = e.B /\ \A k \in 1..e.B : REq(e.mapped[i][k], Mapped(Y(e, mix[i])[k], e.refs[r]))),
        Clause("metrics: normalised by steps, time and energy evaluations after burn-in",
          LET m == e.metrics[1]
          IN \A j \in 1..2 :
            /\ \E f \in {R(e.ratio), RSub(1, e.ratio)} : Near(m.mh[j], RDiv(m.ess[j], RMul(e.L, f)))
            /\ \E f \in {R(e.ratio), RSub(1, e.ratio)} : Near(m.ee[j], RDiv(m.ess[j], RMul(e.calls * e.L, f)))
            /\ Near(RMul(m.t[j], m.time), m.ess[j])),
        Clause("metrics: the time is that of the steps after burn-in", ~e.slow \/ RLt(e.metrics[1].time, 3)),
        Clause("metrics: acceptance and moved distance of every step", ~e.extra \/
          LET m == e.metrics[1] IN
          /\ Len(m.acc) = e.L /\ Len(m.hops) = e.L
          /\ \A s \in 1..e.L :
               /\ Fine(m.acc[s], RDiv(RSum([d \in 1..e.D |-> e.steps[s][d].acc]), e.D))
               /\ Fine(m.hops[s], RDiv(RSum([k \in 1..e.B |-> Mapped(Y(e, s)[k], X(e, s)[k])]), e.B))),
        Clause("snapshots: taken at the configured steps, when asked for",
          IF e.want THEN e.nsnaps = 1 /\ Len(e.snaps) = Cardinality(Snapshots(e)) ELSE e.nsnaps = 0),
        Clause("snapshots: follow distinct chains of the batch", ~e.want \/ Len(e.snaps) # Cardinality(Snapshots(e)) \/ Len(e.snaps) = 0 \/
          LET w == Len(e.snaps[1]) IN
          /\ w = (IF e.B < 4 THEN e.B ELSE 4)
          /\ \A i \in 1..w : Follows(e, i) # {}
          /\ Cardinality(UNION {Follows(e, i) : i \in 1..w}) >= w),
        Clause("snapshots: parameters saved with them", e.dumped = <<>> \/ e.dumped = e.params),
        Clause("snapshots: parameters saved when the estimation error is wanted", e.wantp <=> e.dumped # <<>>) >> \o
     EssClauses("metrics", e.mapped, e.B, e.metrics[1].ess)
(* a run of a shipped model and sampler *)
EndClauses(e) ==
  << Clause("combination: the run saves finite results", \A v \in {e.metrics[i] : i \in 1..Len(e.metrics)} : RIsFinite(v)),
     Clause("combination: effective sample size within the chain length", RLt(0, e.metrics[1]) /\ RLe(e.metrics[1], RMul(e.n, "1.001"))),
     Clause("combination: acceptance rates within [0, 1] and distances within the space", \A s \in 1..Len(e.acc) :
        RLe("-1e-6", e.acc[s]) /\ RLe(e.acc[s], "1.00001") /\ RLe(0, e.hops[s]) /\ RLe(e.hops[s], e.maxhop)),
     Clause("combination: one value per step", Len(e.acc) = e.L /\ Len(e.hops) = e.L),
     Clause("combination: the chain moves", RLt(0, RSum(e.hops))) >>
Clauses(e) == CASE e.ev = "run" -> RunClauses(e)
                [] e.ev = "ess" -> EssClauses("evaluator", e.m, e.B, e.ess)
                [] e.ev = "end" -> EndClauses(e)
                [] e.ev = "raised" -> << Clause("raised: " \o e.what, FALSE) >>
Init == l = 1 /\ bad = <<>>
Check == l <= Len(Trace) /\ l' = l + 1 /\ Note(Clauses(Trace[l]))
Next == Check \/ WriteVerdict
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
