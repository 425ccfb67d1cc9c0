------------------------------- MODULE Annealing -------------------------------
(***************************************************************************)
(* The annealed optimisation run: temperature schedules, and the record of *)
(* the best solution per instance that logging keeps.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, RealArith

(* temperature of step s of L *)
Temperature(c, s) ==
  CASE c.sched = "constant" -> R(c.T0)
    [] c.sched = "linear" -> RAdd(c.T0, RMul(RSub(c.T1, c.T0), RDiv(s, c.L)))
    [] c.sched = "exp_decay" ->
         LET v == RMul(c.T0, RPow(c.rate, RDiv(s, c.L)))
         IN IF RLt(c.rate, 1) THEN RMax(v, c.T1) ELSE RMin(v, c.T1)
BurnIn(c) == RFloor(RMul(c.L, c.ratio))      \* steps before the timed part
Logged(c) == {s \in 1..c.L : s % c.log = 0}
(* best of a set of reals *)
MaxOf(S) == CHOOSE a \in S : \A b \in S : RLe(b, a)
Never == "-1e9"
(* vals[s]: the set of ratios of the solutions of step s *)
BestUpTo(c, vals, s) == MaxOf({Never} \cup UNION {vals[t] : t \in {t \in Logged(c) : t <= s}})
=============================================================================
