--------------------------------- MODULE CnfMC ---------------------------------
EXTENDS Cnf, TLC
CONSTANTS NV, NC
VARIABLE f
Lits == {l \in (0 - NV)..NV : l # 0}
ClausesOver == {c \in [1..3 -> Lits] : c[1] <= c[2] /\ c[2] <= c[3]}
Init == f = <<>>
Next == Len(f) < NC /\ \E c \in ClausesOver : f' = Append(f, c)
Spec == Init /\ [][Next]_f
Satisfiable(cls) == \E a \in [1..NV -> BOOLEAN] : \A i \in 1..Len(cls) : \E k \in 1..3 :
                      LET l == cls[i][k] IN IF l > 0 THEN a[l] ELSE ~a[0 - l]
(* an independent set picks at most one node per clause: enumerate the picks  *)
HasFullSet(cls) == \E pick \in [1..Len(cls) -> 0..2] : Indep(CnfEdges(cls), {3 * (i - 1) + pick[i] : i \in 1..Len(cls)})
AtMostOnePerClause == \A u, v \in CnfNodes(f) : (u < v /\ u \div 3 = v \div 3) => <<u, v>> \in CnfEdges(f)
Reduction == AtMostOnePerClause /\ (Satisfiable(f) <=> HasFullSet(f))
=============================================================================
