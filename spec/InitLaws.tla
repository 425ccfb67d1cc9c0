------------------------------ MODULE InitLaws ------------------------------
(***************************************************************************)
(* What the models draw before sampling starts: parameters, synthetic      *)
(* observations, initial samples, and the conditional laws of the RBM.     *)
(***************************************************************************)
EXTENDS Energies, Space

(* sign of the external field at 0-based site (r, c) of an R x C lattice:  *)
(* a centred disc covering half of the (unit) area                          *)
InDisc(r, c, R_, C_) ==
  RLt(RAdd(RPow(RSub(RDiv(r, R_), "0.5"), 2), RPow(RSub(RDiv(c, C_), "0.5"), 2)),
      RDiv("0.5", "3.141592653589793"))
FieldMean(mu, r, c, R_, C_) == IF InDisc(r, c, R_, C_) THEN R(mu) ELSE RNeg(mu)

(* law of h given v, and of v given h, as probabilities of bit vectors *)
BitLaw(pre, h) ==
  RProd([i \in 1..Len(h) |-> LET q == Sigmoid(pre[i]) IN IF h[i] = 1 THEN q ELSE RSub(1, q)])
HGivenV(p, v, h) == BitLaw([j \in 1..Len(p.bh) |-> RbmBinPre(p, v, j)], h)
VGivenH(p, h, v) == BitLaw([i \in 1..Len(p.bv) |-> RbmBinPreV(p, h, i)], v)
Bits(n) == [1..n -> {0, 1}]
BitSeq(n, q) == [i \in 1..n |-> ((q - 1) \div IPow(2, n - i)) % 2]
(* one sweep v -> h -> v' of RBM block Gibbs *)
RbmSweep(p, v, w) ==
  RSum([q \in 1..IPow(2, Len(p.bh)) |->
          LET h == BitSeq(Len(p.bh), q) IN RMul(HGivenV(p, v, h), VGivenH(p, h, w))])

(* partition-covering initial assignment (normalised cut): K categories     *)
(* once each, the rest uniform, uniformly permuted.  Probability of z:      *)
(* (1/n!) * sum over choices of the positions of the K base entries         *)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
(* number of ordered choices of positions holding 0,1,..,K-1 respectively   *)
CoverProb(n, K, z) ==
  LET cnt(k) == Cardinality({i \in 1..n : z[i] = k})
      f[k \in 0..K] == IF k = 0 THEN 1 ELSE f[k - 1] * cnt(k - 1)
  IN RDiv(RMul(f[K], Fact(n - K)), RMul(Fact(n), IPow(K, n - K)))
=============================================================================
