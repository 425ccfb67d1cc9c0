-------------------------------- MODULE Results --------------------------------
(***************************************************************************)
(* What an experiment leaves on disk, and the comparison tables made from  *)
(* it.                                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, RealArith
Mean(v) == RDiv(RSum(v), Len(v))
Std(v) == LET m == Mean(v) IN RSqrt(Mean([i \in 1..Len(v) |-> RMul(RSub(v[i], m), RSub(v[i], m))]))
(* annealing results: batches of instances arrive one after the other.     *)
(* rec = [traj, best, time, samples]; traj[t] = best ratios at log t       *)
NoCo == [traj |-> <<>>, best |-> <<>>, time |-> 0, samples |-> <<>>]
Merge(a, b) == [traj |-> IF a.best = <<>> THEN b.traj ELSE [t \in 1..Len(b.traj) |-> a.traj[t] \o b.traj[t]],
                best |-> a.best \o b.best, time |-> RAdd(a.time, b.time), samples |-> a.samples \o b.samples]
(* name of the sampler in the summary file *)
SummaryName(c) ==
  (IF c.adaptive THEN "a_" ELSE "") \o c.name
  \o (IF c.solver = "euler_forward" THEN "f" ELSE "")
  \o (CASE c.balancing = "" -> "" [] c.balancing = "RATIO" -> "(ratio)" [] c.balancing = "MAX" -> "(max)"
        [] c.balancing = "MIN" -> "(min)" [] OTHER -> "(sqrt)")
(* name of the sampler in the comparison tables *)
Dashed(v) == IF v = "" THEN "" ELSE "-" \o v
TableName(c) ==
  (CASE c.name = "hammingball" -> "hb-10-1" [] c.name = "blockgibbs" -> "bg-2" [] c.name = "randomwalk" -> "rwm"
     [] c.name = "path_auxiliary" -> "pas" [] OTHER -> c.name)
  \o (IF c.solver = "euler_forward" THEN "f" ELSE "")
  \o (IF c.adaptive = "False" THEN "-nA" ELSE "")
  \o (IF c.adaptive = "" THEN "" ELSE c.step_size \o Dashed(c.n) \o Dashed(c.num_flips))
  \o (CASE c.balancing = "SQRT" -> "(s)" [] c.balancing = "RATIO" -> "(r)" [] c.balancing = "MIN" -> "(min)"
        [] c.balancing = "MAX" -> "(max)" [] OTHER -> "")
(* runs that differ in the sampler only belong to one table *)
Tables(runs) == {{i \in 1..Len(runs) : runs[i].group = g} : g \in {runs[i].group : i \in 1..Len(runs)}}
=============================================================================
