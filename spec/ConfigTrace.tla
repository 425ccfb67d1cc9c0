------------------------------ MODULE ConfigTrace ------------------------------
(* Recorded launches, assembled settings and built runs.                          *)
EXTENDS Config, TraceBase
Within(a, b) == \A k \in DOMAIN a : k \in DOMAIN b /\ b[k] = a[k]
(* ---- launch: e.sweeps, e.jobs (id, args, base, folder, seen) *)
Assignment(e, j) == [k \in {x \in DOMAIN j.args : \E d \in 1..Len(e.sweeps) : \E i \in 1..Len(e.sweeps[d]) : e.sweeps[d][i].key = x} |-> j.args[k]]
LaunchClauses(e) ==
  LET n == Len(e.jobs)
      combos == Combos(e.sweeps)
      want == [i \in 1..Len(combos) |-> JobArgs(e.model, e.graph, e.sampler, combos[i])]
      got == [i \in 1..n |-> e.jobs[i].args]
  IN << Clause("launch: every combination of the sweep once, with its settings and files", SameJobs(got, want)),
        Clause("launch: every job has a result folder of its own", Cardinality({<<e.jobs[i].base, e.jobs[i].folder>> : i \in 1..n}) = n /\ \A i \in 1..n : e.jobs[i].base = e.jobs[1].base /\ e.jobs[i].own),
        Clause("launch: the folder names the swept values", \A i \in 1..n : e.jobs[i].nread = e.jobs[i].nseen /\ \A k \in 1..Len(e.jobs[i].seen) : LET s == e.jobs[i].seen[k] IN \E v \in 1..Len(s.vals) : s.vals[v] = s.read),
        Clause("launch: graph data is found by every graph job", \A i \in 1..n : (e.graph # "") = (e.jobs[i].data # "")) >>
(* ---- assembly *)
AssemblyClauses(e) ==
  LET m == Merged(e.c)
      final == IF e.local THEN Over(m, "experiment.save_root" :> ("./discs/results/" \o (IF "model.save_dir_name" \in DOMAIN m THEN m["model.save_dir_name"] ELSE m["model.name"]))) ELSE m
  IN << Clause("setting: every value comes from its most specific source", Within(final, e.got)),
        Clause("setting: nothing else is set", DOMAIN e.got \subseteq DOMAIN final),
        Clause("setting: what is given on the command line takes effect", \A k \in DOMAIN Overrides(e.c) \ (Fixed(e.c) \cup (IF e.local THEN {"experiment.save_root"} ELSE {})) : k \in DOMAIN e.got /\ e.got[k] = Overrides(e.c)[k]),
        Clause("setting: the model, graphs and sampler asked for", \A k \in DOMAIN e.asked : k \in DOMAIN e.got /\ e.got[k] = e.asked[k]),
        Clause("setting: instances at a time", e.c.kind = "graph" => e.got["experiment.num_models"] = e.got["model.num_models"]) >>
BuiltClauses(e) ==
  << Clause("run: one experiment", e.runs = 1),
     Clause("run: the experiment, model, sampler and evaluator of the setting", e.got = e.want),
     Clause("run: under the setting", e.batch = e.cfg["experiment.batch_size"] /\ e.saves = e.root),
     Clause("run: the setting is kept with the results", e.stored = e.cfg) >>
ParsedClauses(e) == << Clause("setting string: every key with all its parts", e.got = Parsed(e.pairs)) >>
Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     Note(CASE e.ev = "launched" -> LaunchClauses(e) [] e.ev = "assembled" -> AssemblyClauses(e) [] e.ev = "built" -> BuiltClauses(e)
            [] e.ev = "parsed" -> ParsedClauses(e) [] OTHER -> << Clause("raised: " \o e.what, FALSE) >>)
  /\ l' = l + 1
Init == l = 1 /\ bad = <<>>
Spec == Init /\ [][Step \/ WriteVerdict]_<<l, bad>>
=============================================================================
