----------------------------- MODULE KernelsMC -----------------------------
(***************************************************************************)
(* Exhaustive design check of the sampler kernels: for every sampler       *)
(* configuration in Cfgs, every target with log-densities in LLs and a     *)
(* family of (exact and deliberately wrong) gradient fields, the chain is  *)
(* explored state by state.  The chain is the state machine; its kernel is *)
(* recomputed from the moves at the start of each behaviour.               *)
(***************************************************************************)
EXTENDS Kernels

CONSTANTS LLs, Full, Kinds

VARIABLES c, m, k, x

B2 == [K |-> 2, n |-> 2, mask |-> <<1, 1>>]
K3 == [K |-> 3, n |-> 1, mask |-> <<1>>]
B3 == [K |-> 2, n |-> 3, mask |-> <<1, 0, 1>>]
Bals == {"SQRT", "RATIO", "MAX", "MIN"}
Cfgs(sp) ==
  {[kind |-> "randomwalk", radius |-> r] @@ sp : r \in {"1.0", "1.7"}}
  \cup {[kind |-> "gibbs", index |-> i] @@ sp : i \in 0..(sp.n - 1)}
  \cup {[kind |-> "blockgibbs", index |-> i, blk |-> 2] @@ sp : i \in 0..(sp.n - 1)}
  \cup {[kind |-> "hammingball", index |-> i, blk |-> b] @@ sp : i \in 0..(sp.n - 1), b \in 1..2}
  \cup {[kind |-> "gwg", bal |-> b, flips |-> f] @@ sp : b \in Bals, f \in (IF sp.K = 2 THEN 1..2 ELSE {1})}
  \cup {[kind |-> "path_auxiliary", bal |-> b, flips |-> f] @@ sp : b \in Bals,
           f \in 1..Cardinality({i \in 1..sp.n : sp.mask[i] = 1})}
  \cup {[kind |-> kd, bal |-> b, solver |-> so, taumode |-> tm, logtau |-> "-0.5", tau0 |-> "3.0"] @@ sp :
          kd \in {"dmala", "dlmc"}, b \in Bals, tm \in {"fixed", "local"}, so \in {"interpolate", "euler_forward"}}

(* gradient fields: constant, state dependent, and the exact differences *)
Grad(cc, ll, g) ==
  [s \in S(cc) |->
    LET z == Digits(cc, s) IN
    [i \in 1..cc.n |->
      IF cc.K = 2 THEN
        CASE g = "zero"  -> "0.0"
          [] g = "skew"  -> RSub(s, RMul("0.7", i))
          [] g = "exact" -> RMul(1 - 2 * z[i], RSub(ll[IndexOf(cc, SetAt(cc, z, i, 1 - z[i]))], ll[s]))
      ELSE [v \in 1..cc.K |->
        CASE g = "zero"  -> "0.0"
          [] g = "skew"  -> RSub(RMul(s, "0.5"), RMul("0.7", v))
          [] g = "exact" -> ll[IndexOf(cc, SetAt(cc, z, i, v - 1))]]]]
GradKinds(cc) == IF cc.kind \in {"randomwalk", "gibbs", "blockgibbs", "hammingball"} THEN {"zero"}
                 ELSE {"zero", "skew", "exact"}
Spaces == IF Full THEN {B2, K3, B3} ELSE {B2, K3}

Init ==
  \E sp \in Spaces : \E cc \in {d \in Cfgs(sp) : d.kind \in Kinds} :
    \E ll \in [S(cc) -> IF Full /\ sp.n = 3 THEN {"0.0", "1.5"} ELSE LLs] :
     \E g \in GradKinds(cc) :
      /\ ll[1] = "0.0"
      /\ c = cc
      /\ m = [ll |-> ll, gr |-> Grad(cc, ll, g)]
      /\ k = LET am == AllMoves(cc, m) IN [rows |-> KernelFrom(cc, am), norm |-> RowsNormalised(cc, am)]
      /\ x = 1
Next ==
  /\ \E y \in S(c) : RLt("1e-12", k.rows[x][y]) /\ x' = y
  /\ UNCHANGED <<c, m, k>>
Spec == Init /\ [][Next]_<<c, m, k, x>>

(*------------------------------ invariants -------------------------------*)
InSpace == x \in S(c)
Normalised == k.norm
RowSum == RClose(RSum([t \in S(c) |-> k.rows[x][t]]), 1, "1e-9", 0)
(* the target is stationary: the flow into the current state is its mass   *)
Invariance == BalancedAt(c, k.rows, Pi(c, m), x)
(* every sampler except the Hamming ball composition is reversible          *)
Reversible == LET pi == Pi(c, m) IN
  \A t \in S(c) : RClose(RMul(pi[x], k.rows[x][t]), RMul(pi[t], k.rows[t][x]), "1e-9", "1e-9")
(* masked coordinates never move under the samplers that take a mask *)
MaskKept == c.kind \in {"gwg", "path_auxiliary"} =>
  \A t \in S(c) : RLt("1e-12", k.rows[x][t]) =>
     \A i \in 1..c.n : (c.K = 2 /\ Masked(c, i)) => Digits(c, t)[i] = Digits(c, x)[i]
=============================================================================
