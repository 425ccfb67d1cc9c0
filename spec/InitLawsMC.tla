---------------------------- MODULE InitLawsMC ----------------------------
(* Design check: the RBM sweep leaves the RBM distribution invariant, the    *)
(* covering initial law is a probability law supported on covering           *)
(* assignments.                                                              *)
EXTENDS InitLaws
CONSTANTS NSeeds
VARIABLES s, v
V(seed, i) == RDiv(((seed * 37 + i * 101 + (i * i) * 17) % 41) - 20, 12)
Vec(sd, o, n) == [i \in 1..n |-> V(sd, o + i)]
P(sd) == [w |-> [i \in 1..3 |-> Vec(sd, 10 * i, 2)], bv |-> Vec(sd, 50, 3), bh |-> Vec(sd, 60, 2)]
Init == s \in 1..NSeeds /\ v = 1
Next == \E w \in 1..8 : v' = w /\ s' = s
Spec == Init /\ [][Next]_<<s, v>>
Eq(a, b) == RClose(a, b, "1e-9", "1e-9")
Z(p) == RSum([q \in 1..8 |-> RExp(RbmBinLL(p, BitSeq(3, q)))])
Pi(p, q) == RDiv(RExp(RbmBinLL(p, BitSeq(3, q))), Z(p))
SweepNorm == Eq("1.0", RSum([q \in 1..8 |-> RbmSweep(P(s), BitSeq(3, v), BitSeq(3, q))]))
SweepInv == Eq(Pi(P(s), v), RSum([q \in 1..8 |-> RMul(Pi(P(s), q), RbmSweep(P(s), BitSeq(3, q), BitSeq(3, v)))]))
CSeq(n, K, q) == [i \in 1..n |-> ((q - 1) \div IPow(K, n - i)) % K]
CoverLaw == s = 1 /\ v = 1 =>
   \A n \in 2..4, K \in 2..3 : n >= K =>
     /\ Eq("1.0", RSum([q \in 1..IPow(K, n) |-> CoverProb(n, K, CSeq(n, K, q))]))
     /\ \A q \in 1..IPow(K, n) :
          RLt(0, CoverProb(n, K, CSeq(n, K, q))) <=> {CSeq(n, K, q)[i] : i \in 1..n} = 0..(K - 1)
Disc == s = 1 /\ v = 1 => ~InDisc(0, 0, 10, 10) /\ InDisc(5, 5, 10, 10) /\ InDisc(2, 5, 10, 10) /\ ~InDisc(1, 5, 10, 10)
=============================================================================
