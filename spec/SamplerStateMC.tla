--------------------------- MODULE SamplerStateMC ---------------------------
(* Exhaustive check of the sampler-state machine under every sequence of    *)
(* acceptance rates and jump-rate normalisers from small sets.              *)
EXTENDS SamplerState
CONSTANTS MaxSteps
VARIABLES c, st, seen, lastwin

Base == [K |-> 2, n |-> 4, blk |-> 1, adaptive |-> TRUE, coopt |-> FALSE, target |-> "0.574",
         schedule |-> 3, reset |-> 2, tau0 |-> "3.0", numflips |-> 1, exactratio |-> FALSE, ratiocalls |-> 1,
         mask |-> <<1, 1, 1, 1>>]
Upd(r) == r @@ Base
Cfgs == {Upd([kind |-> "randomwalk", adaptive |-> a, target |-> "0.237"]) : a \in BOOLEAN}
  \cup {Upd([kind |-> "gibbs"]), Upd([kind |-> "gibbs", K |-> 3])}
  \cup {Upd([kind |-> kd, blk |-> b, n |-> n]) : kd \in {"blockgibbs", "hammingball"}, b \in 1..3, n \in {3, 4, 5}}
  \cup {Upd([kind |-> kd, adaptive |-> a, numflips |-> f]) : kd \in {"gwg", "path_auxiliary"}, a \in BOOLEAN, f \in 1..3}
  \cup {Upd([kind |-> kd, adaptive |-> a, coopt |-> o, reset |-> r, schedule |-> h]) :
          kd \in {"dmala", "dlmc"}, a \in BOOLEAN, o \in BOOLEAN, r \in {-1, 2}, h \in {1, 3}}
Depth(cc) == IF HasIndex(cc) THEN 2 * cc.n ELSE MaxSteps
Accs(cc) == IF HasIndex(cc) THEN {"1.0"} ELSE {"0.0", "0.5", "1.0"}
Zs(cc) == IF HasTau(cc) THEN {"-1.0", "0.7", "3.0"} ELSE {"0.0"}

Init == /\ c \in Cfgs /\ st = InitState(c) /\ seen = {} /\ lastwin = 0
Next == /\ st.steps < Depth(c)
        /\ \E acc \in Accs(c), z \in Zs(c) : st' = StepState(c, st, acc, z)
        /\ seen' = seen \cup (Reach(c, st).coords \cap (1..c.n))
        /\ UNCHANGED <<c, lastwin>>
Spec == Init /\ [][Next]_<<c, st, seen, lastwin>>
Tuning == TuningOK(c, st)
Counters == CountersOK(c, st)
(* the systematic scan reaches every coordinate within n steps *)
ScanCovers == (HasIndex(c) /\ st.steps >= c.n) => seen = 1..c.n
FlipsOK == (c.kind \in {"gwg", "path_auxiliary"}) => EffFlips(c, st) \in 1..c.n
=============================================================================
