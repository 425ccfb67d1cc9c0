------------------------------- MODULE TrainTrace -------------------------------
(* Recorded training runs, buffer histories, schedules, loaders, saved models.   *)
EXTENDS Training, TraceBase
Near(a, b) == RClose(a, b, "2e-5", "2e-4")
NearV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
Min2(a, b) == IF a < b THEN a ELSE b
Theta(r) == Append(r.w, r.c)
Avg(r) == Append(r.ew, r.ec)
(* ---- training run *)
TrainClauses(e) ==
  LET n == Min2(e.T - e.init, e.avail)
      full == Len(e.steps) = n /\ e.extra = 0 /\ e.used = n /\ n > 0
      st(s) == e.steps[s]
      dev == 1..e.devices
      first(s, d) == st(s).micro[1][d]
      last(s, d) == st(s).micro[e.pcd][d]
      before(s) == IF s > n THEN Theta(e.final) ELSE Theta(first(s, 1))   \* parameters at the start of step s
      neg(s, d) == last(s, d).y
      grad(s) == LET gs == [d \in dev |-> Gradient(st(s).batch[d], neg(s, d))] IN [i \in 1..Len(gs[1]) |-> Mean([d \in dev |-> gs[d][i]])]
      g[s \in 1..n] == ClipBy(grad(s), e.clip)
      k == Len(before(1))
      m[s \in 0..n] == IF s = 0 THEN Zeros(k) ELSE Moment1(m[s - 1], g[s])
      v[s \in 0..n] == IF s = 0 THEN Zeros(k) ELSE Moment2(v[s - 1], g[s])
      rate(s) == Rate(e.sched, e.lr, e.warm, e.T, s - 1)
      ema[s \in 0..n] == IF s = 0 THEN Append(e.w0, e.c0) ELSE Ema(EmaDecay(e.init + s - 1, e.ema), ema[s - 1], before(s + 1))
      due(every) == {s \in 1..n : (e.init + s) % every = 0}
      ll(F(_, _), s) == Mean([d \in dev |-> MeanEnergy(before(s), F(s, d))])
      pos(s, d) == st(s).batch[d]
      starts(s) == Flat([d \in dev |-> first(s, d).x])
      ends(s) == Flat([d \in dev |-> neg(s, d)])
      buf[s \in 0..n] == IF s = 0 THEN e.buffer0 ELSE IF Holds(buf[s - 1], starts(s)) THEN Replace(buf[s - 1], starts(s), ends(s)) ELSE buf[s - 1]
  IN << Clause("train: one batch per step, until the last step or the data ends", full) >> \o
     IF ~full THEN <<>> ELSE
     << Clause("train: every micro step continues the last", \A s \in 1..n : Len(st(s).micro) = e.pcd /\ \A i \in 2..e.pcd : \A d \in dev : st(s).micro[i][d].x = st(s).micro[i - 1][d].y),
        Clause("train: negative samples persist",
          IF e.kind = "rbm" THEN \A s \in 1..n : \A d \in dev : first(s, d).x = IF s = 1 THEN e.x0[d] ELSE neg(s - 1, d)
          ELSE (\A s \in 1..n : Holds(buf[s - 1], starts(s))) /\ SameBag(e.buffer1, buf[n])),
        Clause("train: fresh randomness", Cardinality({st(t[1]).micro[t[2]][t[3]].key : t \in (1..n) \X (1..e.pcd) \X dev}) = n * e.pcd * e.devices
          /\ \A s \in 1..n : \A d \in dev : first(s, d).birth = first(1, d).birth /\ \A d2 \in dev : d # d2 => first(1, d).birth # first(1, d2).birth),
        Clause("train: chains move under the current parameters", \A s \in 1..n : \A i \in 1..e.pcd : \A d \in dev : Theta(st(s).micro[i][d]) = before(s)),
        Clause("train: starts from the initial parameters", NearV(before(1), Append(e.w0, e.c0))),
        Clause("train: update by the configured optimiser and schedule", \A s \in 1..n :
          NearV(before(s + 1), Updated(e.opt, before(s), g[s], m[s], v[s], s, rate(s), e.wd))),
        Clause("train: moving average", NearV(Avg(e.final), ema[n])),
        Clause("train: step counter and identical replicas", e.final.step = e.init + n /\ \A d \in 1..Len(e.replicas) : e.replicas[d] = e.final),
        Clause("train: logged when due", [i \in 1..Len(e.logs) |-> e.logs[i].step] = SelectSeq([i \in 1..n |-> e.init + i], LAMBDA x : x % e.log = 0)),
        Clause("train: logged values are those of the step", \A i \in 1..Len(e.logs) : LET s == e.logs[i].step - e.init IN
          (s \in 1..n) => /\ Near(e.logs[i].pos, ll(pos, s)) /\ Near(e.logs[i].neg, ll(neg, s)) /\ Near(e.logs[i].loss, RSub(ll(neg, s), ll(pos, s)))
                          /\ (Near(e.logs[i].lr, Rate(e.sched, e.lr, e.warm, e.T, e.logs[i].step)) \/ Near(e.logs[i].lr, rate(s)))),
        Clause("train: checkpoints when due", {e.saved[i].step : i \in 1..Len(e.saved)} = {e.init + s : s \in due(e.save)} /\ Len(e.saved) = Cardinality(due(e.save))),
        Clause("train: a checkpoint holds the state of its step", \A i \in 1..Len(e.saved) : LET s == e.saved[i].step - e.init IN
          (s \in 1..n) => e.saved[i].state.step = e.saved[i].step /\ NearV(Theta(e.saved[i].state), before(s + 1)) /\ NearV(Avg(e.saved[i].state), ema[s])),
        Clause("train: pictures when due, of the current chains", {e.plots[i].step : i \in 1..Len(e.plots)} = {e.init + s : s \in due(e.plotevery)}
          /\ \A i \in 1..Len(e.plots) : LET s == e.plots[i].step - e.init IN (s \in 1..n) =>
               /\ e.plots[i].x = [d \in dev |-> neg(s, d)]
               /\ \A d \in 1..Len(e.plots[i].moves) : e.plots[i].moves[d] = e.pcd * s) >>
(* ---- two processes of one run: keys used by each, checkpoint files of the second *)
ProcessClauses(e) ==
  << Clause("train: processes draw independently", Len(e.second) > 0 /\ {e.first[i] : i \in 1..Len(e.first)} \cap {e.second[i] : i \in 1..Len(e.second)} = {}),
     Clause("train: only the first process writes checkpoints", e.files = <<>>) >>
(* ---- replay buffer: e.ops, sequence of [op, idx, rows]; e.start contents    *)
After(buf, o) == [i \in DOMAIN buf |-> LET S == {j \in 1..Len(o.idx) : o.idx[j] + 1 = i} IN IF S = {} THEN buf[i] ELSE o.rows[CHOOSE j \in S : TRUE]]
BufferClauses(e) ==
  LET n == Len(e.ops)
      b[t \in 0..n] == IF t = 0 THEN e.start ELSE IF e.ops[t].op = "update" THEN After(b[t - 1], e.ops[t]) ELSE b[t - 1]
      samples == {t \in 1..n : e.ops[t].op = "sample"}
  IN << Clause("buffer: distinct entries of the buffer", \A t \in samples : LET o == e.ops[t] IN
            /\ Len(o.idx) = o.n /\ Len(o.rows) = o.n /\ \A i \in 1..o.n : o.idx[i] \in 0..(Len(e.start) - 1)
            /\ Cardinality({o.idx[i] : i \in 1..o.n}) = o.n),
        Clause("buffer: entries are what was last written", \A t \in samples : LET o == e.ops[t] IN e.reinit = 0 => \A i \in 1..o.n : o.rows[i] = b[t - 1][o.idx[i] + 1]),
        Clause("buffer: always reinitialised when asked", \A t \in samples : LET o == e.ops[t] IN e.reinit = 100 => \E i \in 1..o.n : o.rows[i] # b[t - 1][o.idx[i] + 1]) >>
(* e.n rows drawn, e.fresh of them not from the buffer; e.ones[i] ones among fresh rows *)
Within(k, n, p, slack) == LET q == RDiv(k, n) IN RLe(RAbs(RSub(q, p)), RAdd(RMul("5.5", RSqrt(RDiv(RMul(p, RSub(1, p)), n))), slack))
Law(e) ==
  << Clause("buffer: share of reinitialised rows", Within(e.fresh, e.n, e.freq, "1e-9")),
     Clause("buffer: fresh rows follow the data mean, kept away from 0 and 1", \A i \in 1..Len(e.ones) :
        Within(e.ones[i], e.fresh, RAdd("0.01", RMul(e.mean[i], "0.98")), "1e-9")),
     Clause("buffer: initial rows follow the data mean", \A i \in 1..Len(e.init) : Within(e.init[i], e.size, RAdd("0.01", RMul(e.mean[i], "0.98")), "1e-9")) >>
ScheduleClauses(e) == << Clause("schedule: learning rate at every update", \A i \in 1..Len(e.rates) :
    RClose(e.rates[i], Rate(e.sched, e.lr, e.warm, e.total, e.at[i]), RMul(e.lr, "2e-6"), "1e-5")) >>
(* ---- loader: e.data records (ids), e.batches of this process [batch][device][i] *)
LoadClauses(e) ==
  LET mine == OfProcess(e.data, e.procs, e.proc)
      per == e.batch \div e.procs
      rows == Flat([k \in 1..Len(e.batches) |-> Flat(e.batches[k])])
      want == Flat(Chunks(mine, per))
  IN << Clause("loader: batches have one equal part per device", \A k \in 1..Len(e.batches) :
          Len(e.batches[k]) = e.devices /\ \A d \in 1..e.devices : Len(e.batches[k][d]) = per \div e.devices),
        Clause("loader: the records of the process, each once per epoch, none but the last incomplete batch lost",
          IF e.repeat THEN Len(e.batches) = e.limit /\ \A k \in 1..Len(rows) : rows[k] = mine[((k - 1) % Len(mine)) + 1]
          ELSE IF e.shuffled THEN Len(rows) = Len(want) /\ Holds(mine, rows) ELSE rows = want),
        Clause("loader: preprocessing applied to every record", e.pre) >>
(* ---- keys *)
KeyClauses(e) == << Clause("keys: every key of the generator is new", Cardinality({e.keys[i] : i \in 1..Len(e.keys)}) = Len(e.keys)),
                    Clause("keys: advancing by several equals advancing step by step", e.jump = e.keys[e.count]),
                    Clause("keys: one generator, one sequence", e.again = e.keys) >>
(* ---- sharding *)
ShardClauses(e) == << Clause("shard: parts in order, gathered back whole", Flat(e.parts) = e.whole /\ \A d \in 1..Len(e.gathered) : e.gathered[d] = e.whole),
                      Clause("shard: equal parts", Len(e.parts) = e.devices /\ \A d \in 1..Len(e.parts) : Len(e.parts[d]) * e.devices = Len(e.whole)) >>
(* ---- trained models read back *)
ModelClauses(e) == << Clause("model: the files hold the trained parameters", \A i \in 1..Len(e.trained) : NearV(e.trained[i], e.read[i])),
                      Clause("model: the reloaded model has the energy of the trained one", NearV(e.want, e.got)),
                      Clause("model: the setting is restored", e.setting = e.wanted) >>
(* ---- raw images: e.parts[1..3] train, validation, test (ids in file order)   *)
Ids(s) == {s[i] : i \in 1..Len(s)}
ImageClauses(e) ==
  LET from == [k \in 1..3 |-> IF k = 1 THEN 0 ELSE IF k = 2 THEN e.sizes[1] ELSE e.sizes[1] + e.sizes[2]] IN
  << Clause("images: every picture upright and in one part only", \A k \in 1..3 : -1 \notin Ids(e.parts[k]) /\ Len(e.parts[k]) = e.sizes[k] /\ Cardinality(Ids(e.parts[k])) = e.sizes[k]
        /\ \A m \in 1..3 : m # k => Ids(e.parts[k]) \cap Ids(e.parts[m]) = {}),
     Clause("images: the parts of the files are kept apart", \A k \in 1..3 : e.fixed[k] => Ids(e.parts[k]) = from[k]..(from[k] + e.sizes[k] - 1)),
     Clause("images: training data is the training part", Len(e.train) = e.sizes[1] /\ -1 \notin Ids(e.train) /\ (e.fixed[1] => Ids(e.train) = Ids(e.parts[1]))) >>
Clauses(e) == CASE e.ev = "images" -> ImageClauses(e) [] e.ev = "train" -> TrainClauses(e) [] e.ev = "buffer" -> BufferClauses(e) [] e.ev = "law" -> Law(e) [] e.ev = "schedule" -> ScheduleClauses(e)
                [] e.ev = "process" -> ProcessClauses(e) [] e.ev = "load" -> LoadClauses(e) [] e.ev = "keys" -> KeyClauses(e) [] e.ev = "shard" -> ShardClauses(e) [] e.ev = "model" -> ModelClauses(e)
                [] e.ev = "raised" -> << Clause("raised: " \o e.what, FALSE) >>
Init == l = 1 /\ bad = <<>>
Check == l <= Len(Trace) /\ l' = l + 1 /\ Note(Clauses(Trace[l]))
Next == Check \/ WriteVerdict
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
