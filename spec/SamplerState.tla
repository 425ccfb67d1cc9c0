---------------------------- MODULE SamplerState ----------------------------
(***************************************************************************)
(* The sampler-state machine: work counters, the systematic-scan index and *)
(* the adaptive tuning of every sampler, as one transition per step.       *)
(*                                                                         *)
(*  c : [kind, K, n, blk, adaptive, coopt, target, schedule, reset, tau0,  *)
(*       callsPerStep]                                                     *)
(*  st: [steps, calls, index, radius, logtau, logz]                        *)
(***************************************************************************)
EXTENDS Kernels

InitState(c) ==
  [steps |-> 0, calls |-> 0, index |-> 0,
   radius |-> IF c.kind = "path_auxiliary" THEN R(c.numflips) ELSE "1.0",
   logtau |-> "0.0", logz |-> "0.0"]

HasIndex(c)  == c.kind \in {"gibbs", "blockgibbs", "hammingball"}
HasRadius(c) == \/ c.kind \in {"randomwalk", "path_auxiliary"}
                \/ c.kind = "gwg" /\ c.K = 2 /\ c.adaptive
HasTau(c)    == c.kind \in {"dmala", "dlmc"}
AdaptsRadius(c) == HasRadius(c) /\ c.adaptive
AdaptsTau(c) == HasTau(c) /\ c.adaptive /\ ~c.coopt

(* energy/gradient evaluations a step performs per chain *)
CallsPerStep(c) ==
  CASE c.kind = "randomwalk"  -> 2
    [] c.kind = "gibbs"       -> c.K
    [] c.kind = "blockgibbs"  -> IPow(c.K, c.blk)
    [] c.kind = "hammingball" -> (c.K - 1) * c.blk + 1
    [] c.kind = "path_auxiliary" /\ c.exactratio -> 2 * c.ratiocalls
    [] OTHER                  -> 4

Blk(c) == IF c.kind = "gibbs" THEN 1 ELSE c.blk

(* acc: mean acceptance probability of the step; locz: log-normaliser of    *)
(* the local jump rates, averaged over the batch before the step            *)
StepState(c, st, acc, locz) ==
  LET cur == st.steps + 1
      keep == IF c.reset > 0 THEN cur % c.reset # 0 ELSE cur # 1
      z == IF cur < c.schedule \/ ~keep THEN locz ELSE st.logz
      jumps == RAdd(RExp(RAdd(st.logtau, z)), RMul(3, RSub(acc, c.target)))
  IN [steps |-> cur,
      calls |-> st.calls + CallsPerStep(c),
      index |-> IF HasIndex(c) THEN (st.index + Blk(c)) % c.n ELSE 0,
      radius |-> IF AdaptsRadius(c)
                 THEN RClip(RSub(RAdd(st.radius, acc), c.target), 1, c.n)
                 ELSE st.radius,
      logtau |-> CASE AdaptsTau(c) -> RSub(RLog(RMax(jumps, 1)), z)
                   [] c.kind = "dlmc" /\ ~c.adaptive /\ st.steps = 0 -> RSub(RLog(c.tau0), locz)
                   [] OTHER -> st.logtau,
      logz |-> IF AdaptsTau(c) THEN z ELSE st.logz]

(* number of coordinates a step proposes to change *)
EffFlips(c, st) ==
  IF c.adaptive /\ (c.kind = "path_auxiliary" \/ (c.kind = "gwg" /\ c.K = 2))
  THEN LET r == RRound(st.radius) IN IF r < 1 THEN 1 ELSE IF r > c.n THEN c.n ELSE r
  ELSE c.numflips

(* the coordinates a step may touch: [coords, atmost] *)
Reach(c, st) ==
  CASE c.kind = "gibbs"       -> [coords |-> {st.index + 1}, atmost |-> 1]
    [] c.kind = "blockgibbs"  -> [coords |-> (st.index + 1)..(st.index + c.blk), atmost |-> c.blk]
    [] c.kind = "hammingball" -> [coords |-> (st.index + 1)..(st.index + c.blk), atmost |-> 2]
    [] c.kind = "gwg"         -> [coords |-> {i \in 1..c.n : ~(c.K = 2 /\ Masked(c, i))},
                                  atmost |-> IF c.K = 2 THEN EffFlips(c, st) ELSE 1]
    [] c.kind = "path_auxiliary" -> [coords |-> {i \in 1..c.n : ~Masked(c, i)},
                                     atmost |-> EffFlips(c, st)]
    [] OTHER                  -> [coords |-> 1..c.n, atmost |-> c.n]

(*------------------------------ invariants -------------------------------*)
TuningOK(c, st) ==
  /\ HasRadius(c) => RIsFinite(st.radius) /\ (AdaptsRadius(c) => RLe(1, st.radius) /\ RLe(st.radius, c.n))
  /\ HasTau(c) => RIsFinite(st.logtau) /\ RIsFinite(st.logz)
  (* the adapted jump scale never drops below one expected jump *)
  /\ (AdaptsTau(c) /\ st.steps > 0) => RLe("-1e-9", RAdd(st.logtau, st.logz))
CountersOK(c, st) == st.calls = st.steps * CallsPerStep(c) /\ st.index \in 0..(c.n - 1)
=============================================================================
