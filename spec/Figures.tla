-------------------------------- MODULE Figures --------------------------------
(***************************************************************************)
(* Figures made from the results of a sweep.  A sweep is a sequence of     *)
(* runs; each has a sampler (cfg), a value of the key that is plotted      *)
(* along the axis (tick), the rest of its setting (group), and, if it was  *)
(* completed (done), its measurements.  A figure shows bars or lines with  *)
(* labels, ticks and a legend.                                             *)
(***************************************************************************)
EXTENDS Results
Near(a, b) == RClose(a, b, "1e-6", "2e-5")
NearSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
Dist(a, b) == RAbs(RSub(a, b))
ShownName(c, key) == IF key = "balancing_fn_type" THEN TableName([c EXCEPT !.balancing = ""]) ELSE TableName(c)
TickText(model, key, v) == IF key = "shape" /\ model \in {"ising", "potts"} THEN v \o "x" \o v ELSE v
InGroup(runs, g) == {i \in 1..Len(runs) : runs[i].group = g}
Finished(runs, g) == {i \in InGroup(runs, g) : runs[i].done}
Groups(runs) == {runs[i].group : i \in 1..Len(runs)}
(* groups whose figure cannot be left out *)
Due(runs) == {runs[i].group : i \in {i \in 1..Len(runs) : runs[i].done}}
Names(runs, ids, key) == {ShownName(runs[i].cfg, key) : i \in ids}
(* ---- the figures as a whole: one per group (and measure) ---- *)
OnePerGroup(runs, figs) ==
  /\ {figs[k].group : k \in 1..Len(figs)} \subseteq Groups(runs)
  /\ Due(runs) \subseteq {figs[k].group : k \in 1..Len(figs)}
  /\ \A j, k \in 1..Len(figs) : figs[j].group = figs[k].group => j = k
LegendOk(f, things) ==
  /\ \A b \in things : \E k \in 1..Len(f.legend) : f.legend[k].label = b.label
  /\ \A k \in 1..Len(f.legend) : \A b \in things : b.label = f.legend[k].label => b.color = f.legend[k].color
(* ---- bars ---- *)
Nearest(f, x) == CHOOSE t \in {f.ticks[k] : k \in 1..Len(f.ticks)} : \A k \in 1..Len(f.ticks) : RLe(Dist(t.x, x), Dist(f.ticks[k].x, x))
(* bar b of figure f stands at the tick of run r *)
AtTick(f, b, r, model, key) == key = "name" \/ (Len(f.ticks) > 0 /\ Nearest(f, b.x).label = TickText(model, key, r.tick))
Shows(f, b, r, model, key) == /\ b.label = ShownName(r.cfg, key) /\ AtTick(f, b, r, model, key)
                              /\ Near(b.h, r.vals[f.res][1]) /\ Near(b.err, r.vals[f.res][2])
BarSet(f) == {f.bars[k] : k \in 1..Len(f.bars)}
NoneMissing(f, runs, model, key) == \A i \in Finished(runs, f.group) : \E b \in BarSet(f) : Shows(f, b, runs[i], model, key)
NoneInvented(f, runs, model, key) ==
  /\ \A b \in BarSet(f) : b.label \in Names(runs, InGroup(runs, f.group), key)
  /\ \A b \in BarSet(f) : REq(b.h, 0) \/ \E i \in Finished(runs, f.group) : Shows(f, b, runs[i], model, key)
  /\ Cardinality({k \in 1..Len(f.bars) : ~REq(f.bars[k].h, 0)}) = Cardinality(Finished(runs, f.group))
NoneHidden(f) == \A j, k \in 1..Len(f.bars) : j < k => RLe(RSub(RMul("0.5", RAdd(f.bars[j].w, f.bars[k].w)), "1e-6"), Dist(f.bars[j].x, f.bars[k].x))
BarsOk(f, runs, model, key) == NoneMissing(f, runs, model, key) /\ NoneInvented(f, runs, model, key) /\ NoneHidden(f)
(* ---- lines ---- *)
LineSet(f) == {f.lines[k] : k \in 1..Len(f.lines)}
Plain == {"hb-10-1", "bg-2", "rwm"}
TempOk(f, runs, ln) ==
  LET ids == {i \in 1..Len(runs) : TableName(runs[i].cfg) = ln.label} IN
  /\ Len(ln.x) = Cardinality(ids) /\ Len(ln.y) = Len(ln.x)
  /\ \A k \in 1..Len(ln.x) - 1 : RLt(ln.x[k], ln.x[k + 1])
  /\ \A i \in ids : \E k \in 1..Len(ln.x) : Near(ln.x[k], runs[i].x) /\ Near(ln.y[k], runs[i].vals[f.res][1])
(* what was logged after k intervals lies in the k-th interval *)
InInterval(x, k, len) == RLe(RMul(k - 1, len), RAdd(x, RMul("1e-5", len))) /\ RLe(x, RMul(RMul(k, len), "1.00001"))
StepsOk(x, r) == \A k \in 1..Len(x) : InInterval(x[k], k, r.log)
TimesOk(x, r) == \A k \in 1..Len(x) : InInterval(x[k], k, RDiv(r.total, Len(x)))
MeanLine(r) == [k \in 1..Len(r.traj) |-> Mean(r.traj[k])]
(* a ratio below zero counts as zero in the spread *)
Spread(r) == [k \in 1..Len(r.traj) |-> Std([i \in 1..Len(r.traj[k]) |-> RMax(r.traj[k][i], 0)])]
HistoryOk(f, r, ln) == /\ ln.label = TableName(r.cfg) /\ NearSeq(ln.y, MeanLine(r)) /\ Len(ln.x) = Len(ln.y)
                       /\ IF f.axis = "Steps" THEN StepsOk(ln.x, r) ELSE TimesOk(ln.x, r)
(* float32 summation: a spread near zero is only known up to rounding *)
Loose(a, b) == RClose(a, b, "2e-4", "2e-4")
BandOk(r, b, ln) == LET m == MeanLine(r) IN LET s == Spread(r) IN
  /\ Len(b.x) = Len(m) /\ NearSeq(b.x, ln.x)
  /\ \A k \in 1..Len(m) : Loose(b.lo[k], RSub(m[k], s[k])) /\ Loose(b.hi[k], RAdd(m[k], s[k]))
EstimateOk(r, ln) == /\ ln.label = TableName(r.cfg) /\ NearSeq(ln.y, r.z) /\ Len(ln.x) = Len(ln.y)
                     /\ \A k \in 1..Len(ln.x) - 1 : REq(RSub(ln.x[k + 1], ln.x[k]), 1)
(* ---- image grids ---- *)
CeilSqrt(n) == CHOOSE k \in 1..n : k * k >= n /\ (k = 1 \/ (k - 1) * (k - 1) < n)
GridRows(g) == IF g.cols = 0 THEN CeilSqrt(g.n) ELSE g.n \div g.cols
GridCols(g) == IF g.cols = 0 THEN CeilSqrt(g.n) ELSE g.cols
(* colour of the grid at line y, column x (from 0) *)
Pixel(g, y, x, ch) ==
  LET yy == y + g.pad IN LET xx == x + g.pad IN
  LET H == g.h + 2 * g.pad IN LET W == g.w + 2 * g.pad IN
  LET i == (yy % H) - g.pad IN LET j == (xx % W) - g.pad IN
  LET k == (yy \div H) * GridCols(g) + (xx \div W) IN
  IF k < g.n /\ i >= 0 /\ i < g.h /\ j >= 0 /\ j < g.w THEN g.imgs[k + 1][i + 1][j + 1][ch] ELSE g.val
GridOk(g, got) ==
  /\ Len(got) = GridRows(g) * (g.h + 2 * g.pad) - 2 * g.pad
  /\ \A y \in 1..Len(got) : /\ Len(got[y]) = GridCols(g) * (g.w + 2 * g.pad) - 2 * g.pad
                            /\ \A x \in 1..Len(got[y]) : \A ch \in 1..g.c : got[y][x][ch] = Pixel(g, y - 1, x - 1, ch)
=============================================================================
