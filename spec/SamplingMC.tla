------------------------------ MODULE SamplingMC ------------------------------
(* Design: the run as a state machine over all small step histories, and the  *)
(* laws of the effective sample size over all short chains.                   *)
EXTENDS Sampling, TLC
CONSTANTS L, Every, Chains, Vals, Num, Den
VARIABLES s, x, mapped, snaps, calls, hist
vars == <<s, x, mapped, snaps, calls, hist>>
c == [L |-> L, every |-> Every, ratio |-> RDiv(Num, Den)]
Ref == <<1>>
Init == /\ s = 0 /\ x \in [1..Chains -> Vals] /\ mapped = <<>> /\ snaps = <<>> /\ calls = 0 /\ hist = <<>>
Step == /\ s < L
        /\ \E y \in [1..Chains -> Vals] :
             /\ s' = s + 1 /\ x' = y /\ calls' = calls + 3 /\ hist' = Append(hist, y)
             /\ mapped' = IF s + 1 > BurnIn(c) THEN Append(mapped, [k \in 1..Chains |-> Mapped(<<y[k]>>, Ref)]) ELSE mapped
             /\ snaps' = IF (s + 1) % Every = 0 THEN Append(snaps, y) ELSE snaps
Spec == Init /\ [][Step]_vars
(* closed forms used on recorded runs *)
Count == Len(mapped) = Cardinality({t \in Mixing(c) : t <= s}) /\ Len(snaps) = Cardinality({t \in Snapshots(c) : t <= s})
Align == \A i \in 1..Len(mapped) : \A k \in 1..Chains : mapped[i][k] = Mapped(<<hist[BurnIn(c) + i][k]>>, Ref)
SnapAlign == \A i \in 1..Len(snaps) : snaps[i] = hist[i * Every]
Calls == calls = 3 * s
Rev(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
(* sample size of the recorded statistic *)
EssLaws == s = L => \A k \in 1..Chains :
  LET v == [i \in 1..Len(mapped) |-> mapped[i][k]]
      e == EssSet(v)
      same(f) == \A a \in f : \E b \in e : RClose(a, b, "1e-6", "1e-6")
  IN Len(v) > 0 =>
     /\ \A a \in e : RLt(0, a) /\ RLe(a, RAdd(Len(v), "1e-6"))      \* between 0 and the length
     /\ same(EssSet([i \in 1..Len(v) |-> 3 - v[i]]))                \* reflection, shift and
     /\ same(EssSet([i \in 1..Len(v) |-> 2 * v[i] + 5]))            \* scale invariance
     /\ same(EssSet(Rev(v)))                                        \* time reversal
=============================================================================
