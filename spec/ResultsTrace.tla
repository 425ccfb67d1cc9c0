------------------------------ MODULE ResultsTrace ------------------------------
(* Recorded saver calls with what is on disk after each of them, and tables      *)
(* made from result folders.  co follows the annealing results of the current   *)
(* saver.                                                                        *)
EXTENDS Results, TraceBase
VARIABLE co
Near(a, b) == RClose(a, b, "1e-6", "1e-5")
NearSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
NearMat(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearSeq(a[i], b[i])
Row(e, k) == e.row[k]
(* ---- saver ---- *)
CoClauses(e, c) ==
  << Clause("results: ratios of all instances so far", NearMat(e.file.traj, c.traj) /\ NearSeq(e.file.best, c.best)),
     Clause("results: mean of the best ratios of all instances", Near(e.file.mean, Mean(c.best))),
     Clause("results: total time", Near(e.file.time, c.time)),
     Clause("results: best solutions of all instances", NearMat(e.file.samples, c.samples)) >>
EssClauses(e) ==
  << Clause("summary: sampler name", e.sampler = SummaryName(e.cfg)),
     Clause("summary: setting of the run", e.setting = e.given),
     Clause("summary: values", \A k \in 1..4 : NearSeq(e.vals[k], e.metrics[k]) /\ Near(e.time, e.running)) >>
SameClauses(e) == << Clause(e.what \o ": saved as given", e.file = e.given) >>
(* ---- tables ---- *)
Ids(e, t) == {i \in 1..Len(e.runs) : e.runs[i].group = t.group}
CellOk(cell, want) == NearSeq(cell, want)
SeqOf(S) == [i \in 1..Cardinality(S) |-> CHOOSE t \in S : Cardinality({u \in S : u <= t}) = i]
TableClauses(e) ==
  << Clause("tables: one table per setting", {e.tables[j].group : j \in 1..Len(e.tables)} = {e.runs[i].group : i \in 1..Len(e.runs)}
                                             /\ Len(e.tables) = Cardinality(Tables(e.runs))),
     Clause("tables: one row per sampler", \A j \in 1..Len(e.tables) :
        LET rows == e.tables[j].rows IN
        /\ {rows[k].sampler : k \in 1..Len(rows)} = {TableName(e.runs[i].cfg) : i \in Ids(e, e.tables[j])}
        /\ Len(rows) = Cardinality({rows[k].sampler : k \in 1..Len(rows)})),
     Clause("tables: values of the runs of the sampler", \A j \in 1..Len(e.tables) : LET rows == e.tables[j].rows IN \A k \in 1..Len(rows) :
        LET ids == SeqOf({i \in Ids(e, e.tables[j]) : TableName(e.runs[i].cfg) = rows[k].sampler})
        IN \A c \in 1..Len(e.cols) : CellOk(rows[k].vals[c], [i \in 1..Len(ids) |-> e.runs[ids[i]].vals[c]])) >>
Clauses(e) == CASE e.ev = "open" -> <<>>
                [] e.ev = "co" -> CoClauses(e, Merge(co, e.given))
                [] e.ev = "ess" -> EssClauses(e)
                [] e.ev = "same" -> SameClauses(e)
                [] e.ev = "tables" -> TableClauses(e)
                [] e.ev = "raised" -> << Clause("raised: " \o e.what, FALSE) >>
Init == l = 1 /\ bad = <<>> /\ co = NoCo
Check == /\ l <= Len(Trace) /\ l' = l + 1 /\ Note(Clauses(Trace[l]))
         /\ co' = CASE Trace[l].ev = "open" -> NoCo [] Trace[l].ev = "co" -> Merge(co, Trace[l].given) [] OTHER -> co
Next == Check \/ (WriteVerdict /\ UNCHANGED co)
Spec == Init /\ [][Next]_<<l, bad, co>>
=============================================================================
