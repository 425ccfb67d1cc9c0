------------------------------ MODULE ConfigMC ------------------------------
(* Design: (1) the assembly program, which applies the layers one after another  *)
(* in its own order, ends with the setting that precedence prescribes, for every *)
(* way the layers can define the keys; (2) the sweep odometer launches every     *)
(* combination once, each in a directory of its own.                             *)
EXTENDS Config
CONSTANTS ExpKeys, ModelKeys, SamplerKeys, MaxDicts, MaxKeys, MaxVals
VARIABLES c, cfg, pc, sweeps, d, counter, jobs
vars == <<c, cfg, pc, sweeps, d, counter, jobs>>
L(name, ks) == {[k \in T |-> name] : T \in SUBSET ks}
Empty == <<>>
Sources == {[kind |-> kd, common |-> Over(Over(Over([k \in ExpKeys |-> "common"], [k \in ModelKeys |-> "common"]), [k \in SamplerKeys |-> "common"]), Task("classical")),
             exp |-> e, expo |-> eo, model |-> m, modelo |-> mo, sampler |-> s, samplero |-> so, graph |-> g] :
             kd \in Kinds, e \in L("exp", ExpKeys), eo \in L("expo", ExpKeys), m \in L("model", ModelKeys), mo \in L("modelo", ModelKeys),
             s \in L("sampler", SamplerKeys), so \in L("samplero", SamplerKeys), g \in L("graph", ModelKeys) \cup {Over(x, "model.num_models" :> "7") : x \in L("graph", ModelKeys)}}
(* a flag can only override what its file has; only graph tasks have graph data *)
Sound(x) == /\ DOMAIN x.expo \subseteq DOMAIN x.exp /\ DOMAIN x.modelo \subseteq DOMAIN x.model /\ DOMAIN x.samplero \subseteq DOMAIN x.sampler
            /\ (x.kind # "graph" => DOMAIN x.graph = {}) /\ (x.kind = "graph" => "model.num_models" \in DOMAIN x.graph)
Dicts == UNION {[1..n -> {[key |-> k, vals |-> [i \in 1..v |-> ToString(i)]] : k \in {"a", "b", "sampler_config.name"}, v \in 1..MaxVals}] : n \in 1..MaxKeys}
GoodDict(x) == \A i, j \in 1..Len(x) : i # j => x[i].key # x[j].key
SweepLists == {s \in UNION {[1..n -> {x \in Dicts : GoodDict(x)}] : n \in 1..MaxDicts} : TRUE}
Zero(x) == [i \in 1..Len(x) |-> 1]
Init == \/ /\ c \in {x \in Sources : Sound(x)} /\ cfg = c.common /\ pc = "start"
           /\ sweeps = <<>> /\ d = 0 /\ counter = <<>> /\ jobs = <<>>
        \/ /\ c = <<>> /\ cfg = <<>> /\ pc = "launch" /\ sweeps \in SweepLists /\ d = 1 /\ counter = Zero(sweeps[1]) /\ jobs = <<>>
(* the order of the program *)
E == Over(c.exp, c.expo)
M == Over(c.model, c.modelo)
S == Over(c.sampler, c.samplero)
Next_(from, to, layer) == pc = from /\ cfg' = Over(cfg, layer) /\ pc' = to /\ UNCHANGED <<c, sweeps, d, counter, jobs>>
Assemble ==
  \/ c # <<>> /\ c.kind = "classical" /\ Next_("start", "sampler", E)
  \/ c # <<>> /\ c.kind # "classical" /\ Next_("start", "sampler", <<>>)
  \/ pc = "sampler" /\ Next_("sampler", "model", S)
  \/ pc = "model" /\ c.kind = "classical" /\ Next_("model", "done", M)
  \/ pc = "model" /\ c.kind = "text" /\ Next_("model", "texttask", M)
  \/ pc = "texttask" /\ Next_("texttask", "text", Task("text"))
  \/ pc = "text" /\ Next_("text", "done", E)
  \/ pc = "model" /\ c.kind = "graph" /\ Next_("model", "graph", M)
  \/ pc = "graph" /\ Next_("graph", "co", c.graph)
  \/ pc = "co" /\ Next_("co", "coexp", Task("graph"))
  \/ pc = "coexp" /\ Next_("coexp", "num", E)
  \/ pc = "num" /\ pc' = "done" /\ cfg' = Over(cfg, "experiment.num_models" :> cfg["model.num_models"]) /\ UNCHANGED <<c, sweeps, d, counter, jobs>>
(* odometer over the current dictionary, last key fastest *)
Cur == sweeps[d]
Assign == [k \in {Cur[i].key : i \in 1..Len(Cur)} |-> LET i == CHOOSE i \in 1..Len(Cur) : Cur[i].key = k IN Cur[i].vals[counter[i]]]
Last == {i \in 1..Len(Cur) : counter[i] < Len(Cur[i].vals)}
Tick == LET i == CHOOSE i \in Last : \A j \in Last : j <= i IN [k \in 1..Len(Cur) |-> IF k < i THEN counter[k] ELSE IF k = i THEN counter[k] + 1 ELSE 1]
Launch == /\ pc = "launch"
          /\ jobs' = Append(jobs, [id |-> Len(jobs) + 1, assign |-> Assign])
          /\ IF Last # {} THEN d' = d /\ counter' = Tick /\ pc' = pc
             ELSE IF d < Len(sweeps) THEN d' = d + 1 /\ counter' = Zero(sweeps[d + 1]) /\ pc' = pc
             ELSE d' = d /\ counter' = counter /\ pc' = "launched"
          /\ UNCHANGED <<c, cfg, sweeps>>
Spec == Init /\ [][Assemble \/ Launch]_vars
ByPrecedence == pc = "done" => cfg = Merged(c)
OverridesWin == pc = "done" => \A k \in DOMAIN Overrides(c) \ Fixed(c) : cfg[k] = Overrides(c)[k]
TaskRuns == (pc = "done" /\ "experiment.name" \notin DOMAIN E) => cfg["experiment.name"] = Task(c.kind)["experiment.name"]
SectionsApart == pc = "done" => \A k \in ModelKeys : cfg[k] \notin {"exp", "expo", "sampler", "samplero"}
AllLaunched == pc = "launched" => SameJobs([i \in 1..Len(jobs) |-> jobs[i].assign], Combos(sweeps))
NeverTooMany == \A i \in 1..Len(jobs) : jobs[i].id = i /\ Times([j \in 1..Len(jobs) |-> jobs[j].assign], jobs[i].assign) <= Times(Combos(sweeps), jobs[i].assign)
=============================================================================
