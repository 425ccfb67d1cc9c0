------------------------------- MODULE AisTrace -------------------------------
(* Recorded runs of the annealed importance sampling experiment.               *)
EXTENDS Ais, TraceBase
Near(a, b) == RClose(a, b, "2e-4", "2e-4")
Concat(f, n) == LET g[i \in 0..n] == IF i = 0 THEN <<>> ELSE g[i - 1] \o f[i] IN g[n]
X(e, s) == Concat([d \in 1..e.D |-> e.steps[s][d].x], e.D)
Base(e, x) == RDot(e.wb, x)
Target(e, x) == RAdd(RDot(e.wt, x), e.ct)
Run(e) ==
  LET complete == /\ Len(e.steps) = e.L
                  /\ \A s \in 1..e.L : Len(e.steps[s]) = e.D /\ \A d \in 1..e.D : e.steps[s][d].linked
                  /\ \A s \in 1..e.L : Len(X(e, s)) = e.B
      lw == LET g[s \in 0..e.L] == IF s = 0 THEN [k \in 1..e.B |-> "0"]
                 ELSE [k \in 1..e.B |-> RAdd(g[s - 1][k], Increment(e.L, s, Base(e, X(e, s)[k]), Target(e, X(e, s)[k])))]
            IN g
  IN << Clause("ais: every chain takes chain_length steps, each continuing the last", complete) >> \o
     IF ~complete THEN <<>> ELSE
     << Clause("ais: chains start from the initial samples", X(e, 1) = e.x0),
        Clause("ais: step s runs at inverse temperature s / chain_length", \A s \in 1..e.L : \A d \in 1..e.D : Near(e.steps[s][d].T, Beta(e.L, s))),
        Clause("ais: fresh randomness for every step and device",
          Cardinality({e.steps[t[1]][t[2]].key : t \in (1..e.L) \X (1..e.D)}) = e.L * e.D),
        Clause("ais: estimate after every step", e.nsaves = 1 /\ Len(e.logz) = e.L /\ \A s \in 1..e.L : Near(e.logz[s], LogMeanExp(lw[s]))) >>
(* real kernels: the last estimate is close to the true ratio *)
Law(e) == << Clause("ais: the estimate is the log ratio of normalising constants", RClose(e.logz, LogMeanExp(e.table), e.tol, 0)) >>
(* real network: interpolation between the base and the whole energy *)
Net(e) ==
  LET base(x) == RSum([i \in 1..Len(x) |-> IF x[i] = 1 THEN RLog(e.mean[i]) ELSE RLog(RSub(1, e.mean[i]))])
  IN << Clause("ais: at zero the energy is the base", \A i \in 1..Len(e.xs) : Near(e.v0[i], base(e.xs[i]))),
        Clause("ais: at one the energy is that of the model", \A i \in 1..Len(e.xs) : Near(e.v1[i], e.plain[i])),
        Clause("ais: linear in between", \A j \in 1..Len(e.betas) : \A i \in 1..Len(e.xs) : Near(e.vb[j][i], Path(e.v0[i], e.v1[i], e.betas[j]))) >>
Clauses(e) == CASE e.ev = "run" -> Run(e) [] e.ev = "law" -> Law(e) [] e.ev = "net" -> Net(e)
                [] e.ev = "raised" -> << Clause("raised: " \o e.what, FALSE) >>
Init == l = 1 /\ bad = <<>>
Check == l <= Len(Trace) /\ l' = l + 1 /\ Note(Clauses(Trace[l]))
Next == Check \/ WriteVerdict
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
