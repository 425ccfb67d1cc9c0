------------------------------- MODULE Config -------------------------------
(* How a run gets its setting: configuration files and command-line overrides    *)
(* are merged by precedence; a sweep launches one job for every combination.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* A layer is a function from "section.key" to a value. *)
Over(low, high) == [k \in DOMAIN low \cup DOMAIN high |-> IF k \in DOMAIN high THEN high[k] ELSE low[k]]
RECURSIVE OverAll(_)
OverAll(ls) == IF Len(ls) = 1 THEN ls[1] ELSE Over(OverAll(SubSeq(ls, 1, Len(ls) - 1)), ls[Len(ls)])
Kinds == {"classical", "graph", "text"}
(* what a kind of task runs, unless the experiment setting says otherwise *)
Task(kind) ==
  CASE kind = "graph" -> ("experiment.evaluator" :> "co_eval" @@ "experiment.name" :> "CO_Experiment" @@ "experiment.co_opt_prob" :> "True")
    [] kind = "text" -> ("experiment.evaluator" :> "lm_eval" @@ "experiment.name" :> "Text_Infilling_Experiment")
    [] OTHER -> ("experiment.evaluator" :> "ess_eval" @@ "experiment.name" :> "Sampling_Experiment" @@ "experiment.num_models" :> "1")
(* c: [kind, common, exp, expo, model, modelo, sampler, samplero, graph]; the "o" layers are command-line overrides *)
Precedence(c) == << c.common, Task(c.kind), c.exp, c.expo, c.sampler, c.samplero, c.model, c.modelo, c.graph >>
(* the common file is also the experiment file of classical tasks and defines empty model and sampler names *)
Merged(c) ==
  LET all == OverAll(Precedence(c))
  IN IF c.kind = "graph" /\ "model.num_models" \in DOMAIN all THEN Over(all, "experiment.num_models" :> all["model.num_models"]) ELSE all
(* keys nobody can override: a graph task takes as many instances at a time as its data says, with the sizes the data has *)
Fixed(c) == DOMAIN c.graph \cup (IF c.kind = "graph" THEN {"experiment.num_models"} ELSE {})
Overrides(c) == Over(Over(c.expo, c.modelo), c.samplero)
(* ---- setting strings: key-part-part,key-part *)
Parsed(pairs) == [k \in {pairs[i].key : i \in 1..Len(pairs)} |-> LET last == CHOOSE i \in 1..Len(pairs) : pairs[i].key = k /\ \A j \in 1..Len(pairs) : pairs[j].key = k => j <= i IN pairs[last].parts]
(* ---- sweeps: a list of dictionaries, each a list of [key, vals] *)
RECURSIVE Product(_)
Product(d) == IF Len(d) = 0 THEN << <<>> >>
  ELSE LET rest == Product(SubSeq(d, 2, Len(d))) vs == d[1].vals IN
       [n \in 1..(Len(vs) * Len(rest)) |-> (d[1].key :> vs[((n - 1) \div Len(rest)) + 1]) @@ rest[((n - 1) % Len(rest)) + 1]]
RECURSIVE Combos(_)
Combos(sweeps) == IF Len(sweeps) = 0 THEN <<>> ELSE Product(sweeps[1]) \o Combos(SubSeq(sweeps, 2, Len(sweeps)))
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameJobs(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Times(s, s[i]) = Times(t, s[i])
(* ---- the arguments of a job *)
SamplerOf(default, assign) == IF "sampler_config.name" \in DOMAIN assign THEN assign["sampler_config.name"] ELSE default
ExperimentFile(model, graph) ==
  IF graph # "" THEN "discs/experiment/configs/" \o model \o "/" \o graph \o ".py"
  ELSE IF model = "text_infilling" THEN "discs/experiment/configs/lm_experiment.py" ELSE "discs/common/configs.py"
BaseArgs(model, graph, sampler) ==
  ("model_config" :> ("discs/models/configs/" \o model \o "_config.py")) @@ ("sampler_config" :> ("discs/samplers/configs/" \o sampler \o "_config.py"))
  @@ ("config" :> ExperimentFile(model, graph)) @@ (IF graph = "" THEN <<>> ELSE ("model_config.graph_type" :> graph))
JobArgs(model, graph, sampler, assign) == Over(BaseArgs(model, graph, SamplerOf(sampler, assign)), assign)
=============================================================================
