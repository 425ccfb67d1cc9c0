---------------------------------- MODULE Cnf ----------------------------------
(* A formula in conjunctive form (clauses of three literals) as a graph: one   *)
(* node per literal occurrence, numbered in order; a triangle per clause; an   *)
(* edge between contradictory occurrences.  The largest independent set has    *)
(* one node per clause iff the formula is satisfiable.                         *)
EXTENDS Integers, Sequences, FiniteSets
Lit(cls, u) == cls[(u \div 3) + 1][(u % 3) + 1]
CnfNodes(cls) == 0..(3 * Len(cls) - 1)
CnfEdges(cls) == {<<u, v>> \in CnfNodes(cls) \X CnfNodes(cls) :
                    u < v /\ (u \div 3 = v \div 3 \/ Lit(cls, u) = 0 - Lit(cls, v))}
Indep(E, S) == ~ \E e \in E : e[1] \in S /\ e[2] \in S
=============================================================================
