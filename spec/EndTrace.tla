------------------------------- MODULE EndTrace -------------------------------
(* Results of optimisation runs started from the command line: every reported    *)
(* value is the objective of a solution of that very instance.                    *)
EXTENDS Graphs, TraceBase
Near(a, b) == RClose(a, b, "1e-4", "1e-4")
EndClauses(e) ==
  LET n == Len(e.gs) t == Len(e.curve) IN
  << Clause("end: one result for every instance", Len(e.best) = n /\ Len(e.xs) = n /\ t = e.L \div e.log /\ \A s \in 1..t : Len(e.curve[s]) = n) >> \o
  IF ~(Len(e.best) = n /\ Len(e.xs) = n /\ t >= 1 /\ \A s \in 1..t : Len(e.curve[s]) = n) THEN <<>> ELSE
  << Clause("end: solutions are assignments of the instance", \A i \in 1..n : Len(e.xs[i]) >= e.gs[i].n /\ \A u \in NodeSet(e.gs[i]) : X(e.xs[i], u) \in 0..(e.c.K - 1)),
     Clause("end: " \o e.c.prob \o " best ratio is the objective of the best solution over the reference", \A i \in 1..n :
        (Len(e.xs[i]) >= e.gs[i].n) => Near(RMul(e.best[i], e.refs[i]), Objective(e.c, e.gs[i], e.xs[i]))),
     Clause("end: the curve rises to the best", \A i \in 1..n : REq(e.curve[t][i], e.best[i]) /\ \A s \in 2..t : RLe(e.curve[s - 1][i], e.curve[s][i])),
     Clause("end: mean ratio", Near(e.mean, RDiv(RSum(e.best), n))),
     Clause("end: time", RLt("0.0", e.time)) >>
Clauses(e) == IF e.ev = "end" THEN EndClauses(e) ELSE << Clause("raised: " \o e.what, FALSE) >>
Init == l = 1 /\ bad = <<>>
Check == l <= Len(Trace) /\ l' = l + 1 /\ Note(Clauses(Trace[l]))
Next == Check \/ WriteVerdict
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
