------------------------------ MODULE AnnealingMC ------------------------------
(* Design: the run as a state machine.  Each step draws a solution per chain;  *)
(* logged steps update the record.                                             *)
EXTENDS Annealing, TLC
CONSTANTS L, Log, Chains, Vals
VARIABLES s, cur, best, bestSol, chain, hist
c == [L |-> L, log |-> Log, sched |-> "linear", T0 |-> "2", T1 |-> "0.5", rate |-> "0.5", ratio |-> "0.5"]
vars == <<s, cur, best, bestSol, chain, hist>>
Init == s = 0 /\ cur = [k \in 1..Chains |-> 0] /\ best = -1000 /\ bestSol = <<>> /\ chain = <<>> /\ hist = <<>>
Step == /\ s < L
        /\ \E y \in [1..Chains -> Vals] :
             LET m == CHOOSE v \in {y[k] : k \in 1..Chains} : \A k \in 1..Chains : y[k] <= v
                 log == (s + 1) % Log = 0
             IN /\ s' = s + 1 /\ cur' = y /\ hist' = Append(hist, y)
                /\ best' = IF log /\ m > best THEN m ELSE best
                /\ bestSol' = IF log /\ m > best THEN <<s + 1, CHOOSE k \in 1..Chains : y[k] = m>> ELSE bestSol
                /\ chain' = IF log THEN Append(chain, best') ELSE chain
Next == Step
Spec == Init /\ [][Next]_vars
MaxI(S) == CHOOSE a \in S : \A b \in S : b <= a
Monotone == \A i \in 1..(Len(chain) - 1) : chain[i] <= chain[i + 1]
OnePerLog == Len(chain) = Cardinality({t \in Logged(c) : t <= s})
Exact == best = MaxI({-1000} \cup UNION {{hist[t][k] : k \in 1..Chains} : t \in {t \in Logged(c) : t <= s}})
Attained == bestSol # <<>> => hist[bestSol[1]][bestSol[2]] = best
LastIsBest == Len(chain) > 0 => chain[Len(chain)] = best
(* schedules: monotone between the end points, never leaving them *)
Sched == \A k \in {"constant", "linear", "exp_decay"} : \A r \in {<<"0.5", "0.2">>, <<"0.01", "0.4">>, <<"1.5", "2.5">>, <<"3", "2.2">>} :
  LET d == [c EXCEPT !.sched = k, !.rate = r[1], !.T1 = r[2]]
      dn == RLt(d.T1, d.T0)
  IN \A t \in 1..L :
       /\ RLe(RMin(d.T0, d.T1), RAdd("1e-9", Temperature(d, t))) /\ RLe(Temperature(d, t), RAdd("1e-9", RMax(d.T0, d.T1)))
       /\ t > 1 => IF dn THEN RLe(Temperature(d, t), Temperature(d, t - 1)) ELSE RLe(Temperature(d, t - 1), Temperature(d, t))
       /\ (t = L /\ k = "linear") => RClose(Temperature(d, t), d.T1, "1e-9", "0")
=============================================================================
