------------------------------ MODULE LoaderTrace ------------------------------
(* Recorded output of the real data loaders, iterators and graph generators.    *)
EXTENDS Loader, Cnf, RealArith, TraceBase

(* e.out: the index sequence of every batch of process e.p *)
IterClauses(e) ==
  << Clause("stream: batches, order and padding", e.out = Stream(e.n, e.B, e.P, e.p)),
     Clause("stream: every entry has the same array shapes", \A i \in 1..Len(e.shapes) : e.shapes[i] = e.shapes[1]) >>
(* e.g: the instance as written; e.p: the parameters delivered for it; e.sol / e.ref:
   its reference objective delivered / expected                                   *)
Ints(s) == \A i \in 1..Len(s) : s[i] \in Int
EdgesOf(g) == {EdgeKey(g.edges[i]) : i \in 1..Len(g.edges)}
WeightOf(g, k) == LET i == CHOOSE i \in 1..Len(g.edges) : EdgeKey(g.edges[i]) = k IN g.edges[i][3]
InstanceClauses(e) ==
  LET p == e.p
      g == e.g
      m == Len(p.emask)
      key(i) == EdgeKey(<<p.from[i], p.to[i]>>)
  IN
  << Clause("instance: edge count", p.num_edges = <<Len(g.edges)>> /\ Cardinality(Real(p)) = Len(g.edges)),
     Clause("instance: exactly the instance's edges are unmasked", {key(i) : i \in Real(p)} = EdgesOf(g)),
     Clause("instance: padded to the common size", m = e.maxm /\ Len(p.from) = m /\ Len(p.to) = m),
     Clause("instance: every index is a node", \A i \in 1..m : p.from[i] \in 0..(e.maxn - 1) /\ p.to[i] \in 0..(e.maxn - 1)),
     Clause("instance: weights, zero on padding", Len(p.weight) = 0 \/
        \A i \in 1..m : REq(p.weight[i], IF i \in Real(p) THEN WeightOf(g, key(i)) ELSE 0)),
     Clause("instance: both directions of every edge", Len(p.bfrom) = 2 * m /\ Len(p.bto) = 2 * m
        /\ (\A i \in 1..m : /\ p.bfrom[i] = p.from[i] /\ p.bto[i] = p.to[i]
                           /\ p.bfrom[m + i] = p.to[i] /\ p.bto[m + i] = p.from[i])
        /\ (Len(p.weight) > 0 => (Len(p.bweight) = 2 * m /\ \A j \in 1..m : REq(p.bweight[j], p.weight[j]) /\ REq(p.bweight[m + j], p.weight[j])))),
     Clause("instance: node mask", IF e.masked THEN p.nmask = [u \in 1..e.maxn |-> IF u <= g.n THEN 1 ELSE 0] /\ p.nnodes = g.n ELSE Len(p.nmask) = 0),
     Clause("instance: node degrees by node number, zero on padding", Len(p.deg) = 0 \/
        (Len(p.deg) = e.maxn /\ \A u \in 1..e.maxn :
           REq(p.deg[u], Cardinality({i \in 1..Len(g.edges) : g.edges[i][1] = u - 1 \/ g.edges[i][2] = u - 1})))),
     Clause("instance: reference objective", REq(e.sol, e.ref)) >>
(* sizes announced to the model, and the configuration they end up in *)
SizeClauses(e) ==
  << Clause("sizes: largest instance decides", e.got = e.want),
     Clause("sizes: sample shape is the number of nodes", e.shape = <<e.want[1]>>),
     Clause("sizes: repeated reading starts over", e.rep = [i \in 1..Len(e.rep) |-> (i - 1) % e.want[3]]) >>
CnfClauses(e) ==
  << Clause("cnf: graph of the formula", {EdgeKey(e.edges[i]) : i \in 1..Len(e.edges)} = CnfEdges(e.cls)
        /\ {e.nodes[i] : i \in 1..Len(e.nodes)} = CnfNodes(e.cls) /\ Len(e.nodes) = 3 * Len(e.cls)) >>
(* ---- random connected graphs ---- *)
RECURSIVE Reach(_, _)
Reach(E, S) == LET T == S \cup {v \in UNION {{e[1], e[2]} : e \in E} : \E e \in E : {e[1], e[2]} \cap S # {} /\ v \in {e[1], e[2]}}
               IN IF T = S THEN S ELSE Reach(E, T)
ConnClauses(e) ==
  << Clause("generator: size within bounds", e.n \in e.lo..e.hi),
     Clause("generator: nodes numbered from zero", {e.nodes[i] : i \in 1..Len(e.nodes)} = 0..(e.n - 1)),
     Clause("generator: connected", Reach({<<e.edges[i][1], e.edges[i][2]>> : i \in 1..Len(e.edges)}, {0}) = 0..(e.n - 1)),
     Clause("generator: weights in range", e.wt = "none" \/ \A i \in 1..Len(e.edges) :
        /\ RLe(e.wlo, e.edges[i][3]) /\ RLe(e.edges[i][3], e.whi)
        /\ (e.wt = "int" => (RLt(e.edges[i][3], e.whi) /\ REq(e.edges[i][3], RFloor(e.edges[i][3]))))),
     Clause("generator: attachment edges", e.m = 0 \/ Len(e.edges) = e.m * (e.n - e.m)) >>
Clauses(e) == CASE e.ev = "iter" -> IterClauses(e)
                [] e.ev = "instance" -> InstanceClauses(e)
                [] e.ev = "sizes" -> SizeClauses(e)
                [] e.ev = "cnf" -> CnfClauses(e)
                [] e.ev = "conn" -> ConnClauses(e)
                [] e.ev = "raised" -> << Clause("raised: " \o e.what, FALSE) >>
Init == l = 1 /\ bad = <<>>
Check == l <= Len(Trace) /\ l' = l + 1 /\ Note(Clauses(Trace[l]))
Next == Check \/ WriteVerdict
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
