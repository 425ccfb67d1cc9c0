------------------------------ MODULE AnnealTrace ------------------------------
(* Recorded annealing runs of the real experiment class.  e.batches[b][m] is    *)
(* instance m of batch b; e.steps[b][m][s] what the sampler was given and       *)
(* returned for it at step s; e.saved[b] what was handed to the saver.          *)
EXTENDS Annealing, TraceBase

Near(a, b) == RClose(a, b, "1e-5", "1e-5")
Value(i, y) == RAdd(RDot(i.w, y), i.c)
Outs(e, b, m, s) == {e.steps[b][m][s].outs[k] : k \in 1..Len(e.steps[b][m][s].outs)}
Real(e, b) == SelectSeq([m \in 1..e.M |-> m], LAMBDA m : e.batches[b][m].idx >= 0)
Ratios(e, b, m) == [s \in 1..e.L |-> {RDiv(Value(e.batches[b][m], y), e.batches[b][m].ref) : y \in Outs(e, b, m, s)}]
Bs(e) == 1..Len(e.batches)
Bag(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Bag(s, s[i]) = Bag(t, s[i])
Concat(f, n) == LET g[i \in 0..n] == IF i = 0 THEN <<>> ELSE g[i - 1] \o f[i] IN g[n]
Diff(x, y) == LET d == [i \in 1..Len(x) |-> IF x[i] < y[i] THEN y[i] - x[i] ELSE x[i] - y[i]] IN RSum(d)
COClauses(e) ==
  LET complete == \A b \in Bs(e) : \A m \in 1..e.M : Len(e.steps[b][m]) = e.L
                    /\ \A s \in 1..e.L : Len(e.steps[b][m][s].T) = e.copies /\ Len(e.steps[b][m][s].outs) = e.B
  IN
  << Clause("anneal: every instance of every batch runs the whole chain", complete),
     Clause("anneal: every batch of instances is saved once", Len(e.saved) = Len(e.batches)) >> \o
  IF ~complete \/ Len(e.saved) # Len(e.batches) THEN <<>> ELSE
  << Clause("anneal: temperature schedule", \A b \in Bs(e) : \A m \in 1..e.M : \A s \in 1..e.L :
        \A k \in 1..e.copies : Near(e.steps[b][m][s].T[k], Temperature(e, s))),
     Clause("anneal: chains start from the initial samples", \A b \in Bs(e) :
        SameBag(Concat([m \in 1..e.M |-> e.steps[b][m][1].ins], e.M), e.inits[b])),
     Clause("anneal: each step continues from the previous one", \A b \in Bs(e) : \A m \in 1..e.M : \A s \in 2..e.L :
        e.steps[b][m][s].ins = e.steps[b][m][s - 1].outs),
     Clause("anneal: node mask of the instance", \A b \in Bs(e) : \A m \in 1..e.M : \A s \in 1..e.L : \A k \in 1..e.copies :
        e.steps[b][m][s].masks[k] = e.batches[b][m].mask),
     Clause("anneal: fresh randomness for every step and instance", \A b \in Bs(e) :
        Cardinality({<<m, s, k>> \in (1..e.M) \X (1..e.L) \X (1..e.copies) : TRUE})
          = Cardinality({e.steps[b][t[1]][t[2]].keys[t[3]] : t \in (1..e.M) \X (1..e.L) \X (1..e.copies)})),
     Clause("anneal: one record per logged step, dummies left out", \A b \in Bs(e) :
        /\ Len(e.saved[b].chain) = Cardinality(Logged(e))
        /\ \A i \in 1..Len(e.saved[b].chain) : Len(e.saved[b].chain[i]) = Len(Real(e, b))),
     Clause("anneal: the record is the best ratio so far", \A b \in Bs(e) :
        \A j \in 1..Len(Real(e, b)) : LET v == Ratios(e, b, Real(e, b)[j]) IN
          \A i \in 1..Len(e.saved[b].chain) : Near(e.saved[b].chain[i][j], BestUpTo(e, v, i * e.log))),
     Clause("anneal: final best ratio", \A b \in Bs(e) : Len(e.saved[b].best) = Len(Real(e, b)) /\
        \A j \in 1..Len(Real(e, b)) : Near(e.saved[b].best[j], BestUpTo(e, Ratios(e, b, Real(e, b)[j]), e.L))),
     Clause("anneal: the kept solution attains the best ratio", ~e.keep \/ Logged(e) = {} \/ \A b \in Bs(e) :
        Len(e.saved[b].samples) = Len(Real(e, b)) /\ \A j \in 1..Len(Real(e, b)) : LET m == Real(e, b)[j] IN
          /\ e.saved[b].samples[j] \in UNION {Outs(e, b, m, s) : s \in Logged(e)}
          /\ Near(RDiv(Value(e.batches[b][m], e.saved[b].samples[j]), e.batches[b][m].ref), e.saved[b].best[j])),
     Clause("metrics: acceptance and moved coordinates per step", \A b \in Bs(e) :
        Len(e.saved[b].acc) = e.L /\ Len(e.saved[b].hops) = e.L /\ \A s \in 1..e.L :
          /\ Near(e.saved[b].acc[s], RDiv(RSum(Concat([m \in 1..e.M |-> e.steps[b][m][s].acc], e.M)), e.M * e.copies))
          /\ Near(e.saved[b].hops[s], RDiv(RSum([m \in 1..e.M |->
               RSum([k \in 1..e.B |-> Diff(e.steps[b][m][s].pairs[k][1], e.steps[b][m][s].pairs[k][2])])]), e.B * e.M))) >>
Clauses(e) == CASE e.ev = "co" -> COClauses(e)
                [] e.ev = "raised" -> << Clause("raised: " \o e.what, FALSE) >>
Init == l = 1 /\ bad = <<>>
Check == l <= Len(Trace) /\ l' = l + 1 /\ Note(Clauses(Trace[l]))
Next == Check \/ WriteVerdict
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
