------------------------------- MODULE ResultsMC -------------------------------
(* Design: instances arrive in batches; the file holds all of them after each  *)
(* save.                                                                       *)
EXTENDS Results, TLC
CONSTANTS MaxBatches, Vals, Logs
VARIABLES file, hist
vars == <<file, hist>>
Batch(n) == {[traj |-> [t \in 1..Logs |-> b], best |-> b, time |-> 2, samples |-> b] : b \in [1..n -> Vals]}
Init == file = NoCo /\ hist = <<>>
Save == /\ Len(hist) < MaxBatches
        /\ \E n \in 1..2 : \E b \in Batch(n) : file' = Merge(file, b) /\ hist' = Append(hist, b)
Spec == Init /\ [][Save]_vars
Flat == LET g[i \in 0..Len(hist)] == IF i = 0 THEN <<>> ELSE g[i - 1] \o hist[i].best IN g[Len(hist)]
NothingLost == file.best = Flat
Aligned == hist # <<>> => (Len(file.traj) = Logs /\ \A t \in 1..Logs : file.traj[t] = Flat)
TimeAdds == REq(file.time, 2 * Len(hist))
Grows == [][Len(file'.best) > Len(file.best) /\ SubSeq(file'.best, 1, Len(file.best)) = file.best]_vars
Weighted == hist # <<>> => RClose(RMul(Mean(file.best), Len(file.best)),
   RSum([i \in 1..Len(hist) |-> RMul(Mean(hist[i].best), Len(hist[i].best))]), "1e-9", "1e-9")
=============================================================================
