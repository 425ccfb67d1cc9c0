----------------------------- MODULE EnergyTrace -----------------------------
(* Recorded log-likelihoods and gradients of the real models.                *)
EXTENDS Energies, TraceBase

Tol == "0.0008"
(* e.rows[i]: sample x; vals: the log-likelihood under every encoding, dtype,
   batch size and entry point; gr: the gradient of get_value_and_grad         *)
EnergyClauses(e) ==
  << Clause("energy: " \o e.m \o " log-likelihood", \A i \in 1..Len(e.rows) :
        LET w == LogLik(e.m, e.p, e.rows[i].x)
        IN \A j \in 1..Len(e.rows[i].vals) : RClose(e.rows[i].vals[j], w, Tol, "0.0003")),
     Clause("energy: " \o e.m \o " gradient", \A i \in 1..Len(e.rows) :
        LET gs == Gradients(e.m, e.p, e.rows[i].x)
        IN \E j \in 1..Len(gs) : NearNest(Depth(e.m), e.rows[i].gr, gs[j], "0.001")) >>
(* networks without closed form: all entry points agree, the gradient is the
   derivative (central differences along random directions)                   *)
NetClauses(e) ==
  << Clause("energy: " \o e.m \o " entry points agree", \A i \in 1..Len(e.rows) :
        \A j \in 1..Len(e.rows[i].vals) : RClose(e.rows[i].vals[j], e.rows[i].vals[1], "3e-4", "3e-4")),
     Clause("energy: " \o e.m \o " gradient is the derivative", \A i \in 1..Len(e.rows) :
        \A j \in 1..Len(e.rows[i].dir) : RClose(e.rows[i].dir[j][1], e.rows[i].dir[j][2], "2e-3", "2e-3")) >>
(* one model, several parameter sets: the value depends on the given ones    *)
Clauses(e) == CASE e.ev = "energy" -> EnergyClauses(e)
                [] e.ev = "net" -> NetClauses(e)
                [] e.ev = "raised" -> << Clause("raised: " \o e.what, FALSE) >>
Init == l = 1 /\ bad = <<>>
Check == l <= Len(Trace) /\ l' = l + 1 /\ Note(Clauses(Trace[l]))
Next == Check \/ WriteVerdict
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
