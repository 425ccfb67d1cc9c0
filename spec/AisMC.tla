--------------------------------- MODULE AisMC ---------------------------------
(* Design: over every path of a small chain, with kernels that leave each      *)
(* intermediate law invariant, the expected weight is the ratio of the         *)
(* normalising constants after every number of steps (the estimate is          *)
(* unbiased).  States are enumerated path by path; the invariant sums them     *)
(* exactly through the forward recursion.                                      *)
EXTENDS Ais, TLC
CONSTANTS L, N, Tables
VARIABLES s, fwd, tab
(* tab: <<base, target>>, each a sequence of N log-likelihoods *)
vars == <<s, fwd, tab>>
E(i, beta) == Path(tab[1][i], tab[2][i], beta)
LogZ(beta) == RLogSumExp([i \in 1..N |-> E(i, beta)])
(* Metropolis with uniform proposals for the law at beta *)
Kern(i, j, beta) ==
  LET a(k) == RDiv(RMin(1, RExp(RSub(E(k, beta), E(i, beta)))), N)
  IN IF i # j THEN a(j) ELSE RSub(1, RSum([k \in 1..N |-> IF k = i THEN 0 ELSE a(k)]))
(* fwd[i]: expected weight so far restricted to chains now at i *)
Init == s = 0 /\ tab \in Tables /\ fwd = [i \in 1..N |-> RExp(RSub(RAdd(tab[1][i], 0), RLogSumExp(tab[1])))]
Step == /\ s < L
        /\ s' = s + 1 /\ tab' = tab
        /\ fwd' = [j \in 1..N |-> RSum([i \in 1..N |->
             RMul(RMul(fwd[i], RExp(Increment(L, s + 1, tab[1][i], tab[2][i]))), Kern(i, j, Beta(L, s + 1)))])]
Spec == Init /\ [][Step]_vars
Unbiased == RClose(RLog(RSum(fwd)), RSub(LogZ(Beta(L, s)), RLogSumExp(tab[1])), "1e-9", "1e-9")
Exact == \A j \in 1..N : RClose(RLog(fwd[j]), RSub(E(j, Beta(L, s)), RLogSumExp(tab[1])), "1e-9", "1e-9")
Vals == {"-1.5", "0", "2.25"}
MCTables == {<<b, t>> : b \in [1..N -> Vals], t \in [1..N -> Vals]}
=============================================================================
