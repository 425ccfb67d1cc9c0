------------------------------ MODULE FiguresTrace ------------------------------
(* Figures and tables recorded from the plotting scripts.                        *)
EXTENDS Figures, TraceBase
Measures == {"ess_ee", "ess_clock"}
Of(e, m) == SelectSeq(e.figs, LAMBDA f : f.res = m)
BarClauses(e) ==
  << Clause("figures: one per setting and measure", \A m \in Measures : OnePerGroup(e.runs, Of(e, m))),
     Clause("figures: every completed run has its bar, at its tick, with its value and error", \A k \in 1..Len(e.figs) : NoneMissing(e.figs[k], e.runs, e.model, e.key)),
     Clause("figures: no bar that is not a completed run", \A k \in 1..Len(e.figs) : NoneInvented(e.figs[k], e.runs, e.model, e.key)),
     Clause("figures: no bar hides another", \A k \in 1..Len(e.figs) : NoneHidden(e.figs[k])),
     Clause("figures: the legend names the bars", \A k \in 1..Len(e.figs) : LegendOk(e.figs[k], BarSet(e.figs[k]))) >>
TempClauses(e) ==
  << Clause("temperatures: one figure per measure", {e.figs[k].res : k \in 1..Len(e.figs)} = Measures /\ Len(e.figs) = 2),
     Clause("temperatures: every informed sampler has a curve", \A k \in 1..Len(e.figs) :
        LET ls == {b.label : b \in LineSet(e.figs[k])} IN LET all == {TableName(e.runs[i].cfg) : i \in 1..Len(e.runs)} IN ls \subseteq all /\ all \ Plain \subseteq ls),
     Clause("temperatures: the value of each run at its temperature", \A k \in 1..Len(e.figs) : \A b \in LineSet(e.figs[k]) : TempOk(e.figs[k], e.runs, b)),
     Clause("temperatures: the legend names the curves", \A k \in 1..Len(e.figs) : LegendOk(e.figs[k], LineSet(e.figs[k]))) >>
HistoryClauses(e) ==
  LET Ax(a) == SelectSeq(e.figs, LAMBDA f : f.axis = a) IN
  << Clause("history: one figure per setting and axis", \A a \in {"Steps", "Time"} : OnePerGroup(e.runs, Ax(a))),
     Clause("history: every run has its curve", \A k \in 1..Len(e.figs) : LET f == e.figs[k] IN
        /\ \A i \in InGroup(e.runs, f.group) : \E b \in LineSet(f) : HistoryOk(f, e.runs[i], b)
        /\ Len(f.lines) = Cardinality(InGroup(e.runs, f.group))),
     Clause("history: the spread over instances", \A k \in 1..Len(e.figs) : LET f == e.figs[k] IN
        \A i \in InGroup(e.runs, f.group) : \A b \in LineSet(f) : HistoryOk(f, e.runs[i], b) => \E c \in {f.bands[j] : j \in 1..Len(f.bands)} : BandOk(e.runs[i], c, b)),
     Clause("history: the legend names the curves", \A k \in 1..Len(e.figs) : LegendOk(e.figs[k], LineSet(e.figs[k]))) >>
EstimateClauses(e) ==
  << Clause("estimates: one figure per setting", OnePerGroup(e.runs, e.figs)),
     Clause("estimates: every run has its curve", \A k \in 1..Len(e.figs) : LET f == e.figs[k] IN
        /\ \A i \in InGroup(e.runs, f.group) : \E b \in LineSet(f) : EstimateOk(e.runs[i], b)
        /\ Len(f.lines) = Cardinality(InGroup(e.runs, f.group))),
     Clause("estimates: the legend names the curves", \A k \in 1..Len(e.figs) : LegendOk(e.figs[k], LineSet(e.figs[k]))) >>
GridClauses(e) == << Clause("grid: every image whole and in order", GridOk(e, e.got) /\ (e.flat <=> e.c = 1)) >>
(* ten images per run, the first of a row carries the name *)
ImageClauses(e) ==
  LET Rows == Len(e.cells) \div 10 IN
  LET Cells(r) == [k \in 1..10 |-> e.cells[10 * (r - 1) + k].img] IN
  << Clause("images: a row per run", Len(e.cells) = 10 * Len(e.runs)
              /\ {e.cells[10 * (r - 1) + 1].label : r \in 1..Rows} = {TableName(e.runs[i].cfg) : i \in 1..Len(e.runs)}),
     Clause("images: the row shows one chain of its run, in order", \A r \in 1..Rows : \E i \in 1..Len(e.runs) :
              TableName(e.runs[i].cfg) = e.cells[10 * (r - 1) + 1].label /\ \E ch \in 1..Len(e.runs[i].chains) : Cells(r) = e.runs[i].chains[ch]) >>
SeqOf(S) == [i \in 1..Cardinality(S) |-> CHOOSE t \in S : Cardinality({u \in S : u <= t}) = i]
TableClauses(e) ==
  << Clause("tables: one per setting", OnePerGroup(e.runs, e.tables)),
     Clause("tables: one row per sampler with the values of its runs", \A j \in 1..Len(e.tables) : LET rows == e.tables[j].rows IN
        /\ {rows[k].sampler : k \in 1..Len(rows)} = Names(e.runs, InGroup(e.runs, e.tables[j].group), "name")
        /\ Len(rows) = Cardinality({rows[k].sampler : k \in 1..Len(rows)})
        /\ \A k \in 1..Len(rows) :
             LET ids == SeqOf({i \in InGroup(e.runs, e.tables[j].group) : TableName(e.runs[i].cfg) = rows[k].sampler})
             IN \A c \in 1..Len(e.cols) : NearSeq(rows[k].vals[c], [i \in 1..Len(ids) |-> e.runs[ids[i]].vals[c]])) >>
ProgressClauses(e) ==
  << Clause("progress: one value per step, named after what it is", Len(e.lines) = Len(e.given) /\ \A g \in {e.given[k] : k \in 1..Len(e.given)} :
        \E k \in 1..Len(e.lines) : LET ln == e.lines[k] IN ln.axis = g.what /\ ln.sampler /\ NearSeq(ln.y, g.y) /\ NearSeq(ln.x, [i \in 1..Len(g.y) |-> i])) >>
Clauses(e) == CASE e.ev = "bars" -> BarClauses(e)
                [] e.ev = "curves" -> TempClauses(e)
                [] e.ev = "history" -> HistoryClauses(e)
                [] e.ev = "estimates" -> EstimateClauses(e)
                [] e.ev = "progress" -> ProgressClauses(e)
                [] e.ev = "grid" -> GridClauses(e)
                [] e.ev = "images" -> ImageClauses(e)
                [] e.ev = "tables" -> TableClauses(e)
                [] e.ev = "raised" -> << Clause("raised: " \o e.what, FALSE) >>
Init == l = 1 /\ bad = <<>>
Check == l <= Len(Trace) /\ l' = l + 1 /\ Note(Clauses(Trace[l]))
Next == Check \/ WriteVerdict
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
