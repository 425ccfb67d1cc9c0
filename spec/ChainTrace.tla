----------------------------- MODULE ChainTrace -----------------------------
(***************************************************************************)
(* Replays recorded chains of the real samplers through SamplerState.      *)
(*   "init": configuration, target tables and the fresh sampler state      *)
(*   "step": samples before/after, reported acceptance, state after        *)
(*   "twice": the same call repeated / its arguments after the call        *)
(* Clause names carry the group they belong to (counters/tuning/domain/    *)
(* pure) so that each property is judged on its own clauses.               *)
(***************************************************************************)
EXTENDS SamplerState, TraceBase

VARIABLES c, m, st, x      \* configuration, tables, state, batch of samples

Tol(a, b) == RClose(a, b, "0.003", "0.001")
(* single-precision tolerance for the radius *)
FieldClauses(cc, want, got) ==
  << Clause("counters: steps", got.steps = want.steps),
     Clause("counters: num_ll_calls", got.calls = want.calls),
     Clause("tuning: scan index", HasIndex(cc) => got.index = want.index),
     Clause("tuning: radius rule", HasRadius(cc) => RClose(got.radius, want.radius, "0.0001", "0.0001")),
     Clause("tuning: step size rule", HasTau(cc) => Tol(got.logtau, want.logtau)),
     Clause("tuning: normaliser rule", HasTau(cc) => Tol(got.logz, want.logz)),
     Clause("tuning: bounded and finite", TuningOK(cc, [got EXCEPT !.calls = 0])) >>

(* on a constant target every coordinate contributes the same *)
BatchLogZ == IF c.flat = 1
  THEN LET one == [c EXCEPT !.n = 1]
           mm == [ll |-> [s \in 1..c.K |-> 0], gr |-> [s \in 1..c.K |-> IF c.K = 2 THEN <<0>> ELSE << [v \in 1..c.K |-> 0] >>]]
       IN RAdd(LocalLogZ(one, mm, 1), RLog(c.n))
  ELSE RSub(RLogSumExp([b \in 1..Len(x) |-> LocalLogZ(c, m, IndexOf(c, x[b]))]), RLog(Len(x)))

InSpace(cc, z) == /\ Len(z) = cc.n
                  /\ \A i \in 1..Len(z) : z[i] \in 0..(cc.K - 1)
StepClauses(e) ==
  LET want == StepState(c, st, e.acc, IF HasTau(c) THEN BatchLogZ ELSE "0.0")
      r == Reach(c, st)
      moved(b) == {i \in 1..c.n : x[b][i] # e.y[b][i]}
      dom == e.shapeok = 1 /\ Len(e.y) = Len(x) /\ \A b \in 1..Len(e.y) : InSpace(c, e.y[b])
  IN FieldClauses(c, want, e.st) \o
     << Clause("accept: in [0,1]", RLe(0, e.acc) /\ RLe(e.acc, "1.000001")),
        Clause("accept: exact samplers report 1", HasIndex(c) => REq(e.acc, 1)),
        Clause("domain: shape", e.shapeok = 1),
        Clause("domain: integer samples", e.intok = 1),
        Clause("domain: values", dom),
        Clause("domain: only reachable coordinates move",
               dom => \A b \in 1..Len(x) : moved(b) \subseteq r.coords),
        Clause("domain: at most the proposed number of coordinates move",
               dom => \A b \in 1..Len(x) : Cardinality(moved(b)) <= r.atmost),
        Clause("domain: a path moves all or none of its coordinates",
               (dom /\ c.kind = "path_auxiliary") =>
                  \A b \in 1..Len(x) : Cardinality(moved(b)) \in {0, r.atmost}) >>

Init == /\ l = 1 /\ bad = <<>>
        /\ c = [kind |-> "none"] /\ m = <<>> /\ st = <<>> /\ x = <<>>
DoInit(e) ==
  /\ e.ev = "init"
  /\ c' = e.cfg /\ m' = [ll |-> e.ll, gr |-> e.gr] /\ st' = e.st /\ x' = e.x
  /\ Note(FieldClauses(e.cfg, InitState(e.cfg), e.st) \o
          << Clause("domain: initial samples", \A b \in 1..Len(e.x) : InSpace(e.cfg, e.x[b])) >>)
(* the harness re-seats the tuning state (to reach extreme values quickly) *)
DoSeat(e) == /\ e.ev = "seat" /\ st' = e.st /\ bad' = bad /\ UNCHANGED <<c, m, x>>
DoStep(e) ==
  /\ e.ev = "step"
  /\ Note(StepClauses(e))
  /\ st' = e.st
  /\ x' = IF e.shapeok = 1 /\ \A b \in 1..Len(e.y) : InSpace(c, e.y[b]) THEN e.y ELSE x
  /\ UNCHANGED <<c, m>>
DoTwice(e) ==
  /\ e.ev = "twice"
  /\ Note(<< Clause("pure: same arguments give the same samples", e.samey = 1),
             Clause("pure: same arguments give the same state", e.samest = 1),
             Clause("pure: same arguments give the same acceptance", e.sameacc = 1),
             Clause("pure: compiled and interpreted steps agree", e.jit = 1),
             Clause("pure: samples argument unchanged", e.xkept = 1),
             Clause("pure: state argument unchanged", e.stkept = 1) >>)
  /\ UNCHANGED <<c, m, st, x>>
DoJumper(e) ==
  /\ e.ev = "jumper"
  /\ Note(<< Clause("counters: evaluations of the locally balanced jump",
                    e.seen[1] = 0 /\ \A k \in 2..Len(e.seen) : e.seen[k] = e.seen[k - 1] + e.calls) >>)
  /\ UNCHANGED <<c, m, st, x>>
DoRaised(e) == /\ e.ev = "raised" /\ Note(<<Clause("raised: " \o e.what, FALSE)>>)
               /\ UNCHANGED <<c, m, st, x>>
Consume == /\ l <= Len(Trace) /\ l' = l + 1
           /\ LET e == Trace[l] IN DoInit(e) \/ DoSeat(e) \/ DoStep(e) \/ DoTwice(e) \/ DoJumper(e) \/ DoRaised(e)
Next == Consume \/ (WriteVerdict /\ UNCHANGED <<c, m, st, x>>)
Spec == Init /\ [][Next]_<<l, bad, c, m, st, x>>
=============================================================================
