---------------------------------- MODULE Ais ----------------------------------
(***************************************************************************)
(* Annealed importance sampling from a base to a target energy, and the    *)
(* running estimate of the log normalising constant.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, RealArith
(* log-likelihood at inverse temperature beta between base b and target t *)
Path(b, t, beta) == RAdd(RMul(RSub(1, beta), b), RMul(beta, t))
Beta(L, s) == RDiv(s, L)
(* increment of the log-weight of a chain that is at a state with base b,  *)
(* target t before step s                                                  *)
Increment(L, s, b, t) == RSub(Path(b, t, Beta(L, s)), Path(b, t, Beta(L, s - 1)))
LogMeanExp(v) == RSub(RLogSumExp(v), RLog(Len(v)))
=============================================================================
