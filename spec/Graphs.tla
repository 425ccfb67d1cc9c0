-------------------------------- MODULE Graphs --------------------------------
(***************************************************************************)
(* Combinatorial optimisation on graphs: the objectives the annealed       *)
(* energies stand for.  An instance g is [n, edges]: nodes 0..n-1, edges a *)
(* sequence of <<u, v, w>> (w a real, unit weight when the data has none). *)
(* An assignment x is a sequence over the padded node range; entries past  *)
(* g.n belong to no node and never matter.  c holds the problem constants: *)
(*   prob, pen, K, N (padded node count), tol, stype, T (temperature).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, RealArith

X(x, u) == x[u + 1]
NodeSet(g) == 0..(g.n - 1)
SumOver(f(_), k) == RSum([i \in 1..k |-> f(i)])
CountOf(g, P(_)) == Cardinality({u \in NodeSet(g) : P(u)})
(* ---- max cut: total weight of the edges whose ends differ ---- *)
CutWeight(g, x) ==
  LET t(i) == IF X(x, g.edges[i][1]) # X(x, g.edges[i][2]) THEN g.edges[i][3] ELSE 0
  IN SumOver(t, Len(g.edges))
(* ---- independent set / clique: size and violated constraints ---- *)
Chosen(g, x) == {u \in NodeSet(g) : X(x, u) = 1}
Inside(g, x) == Cardinality({i \in 1..Len(g.edges) :
                  X(x, g.edges[i][1]) = 1 /\ X(x, g.edges[i][2]) = 1 /\ g.edges[i][1] # g.edges[i][2]})
ISValue(c, g, x) == RSub(Cardinality(Chosen(g, x)), RMul(c.pen, Inside(g, x)))
CliqueValue(c, g, x) ==
  LET s == Cardinality(Chosen(g, x))
  IN RSub(s, RMul(c.pen, ((s * (s - 1)) \div 2) - Inside(g, x)))
(* ---- normalised cut ---- *)
CutOf(g, x, k) == Cardinality({i \in 1..Len(g.edges) :
                    (X(x, g.edges[i][1]) = k) # (X(x, g.edges[i][2]) = k)})
Degree(g, u) == Cardinality({i \in 1..Len(g.edges) : g.edges[i][1] = u}) + Cardinality({i \in 1..Len(g.edges) : g.edges[i][2] = u})
RECURSIVE ISum(_, _)
ISum(f, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN f[s] + ISum(f, S \ {s})
VolOf(g, x, k) == ISum([u \in NodeSet(g) |-> Degree(g, u)], {u \in NodeSet(g) : X(x, u) = k})
SizeOf(g, x, k) == Cardinality({u \in NodeSet(g) : X(x, u) = k})
Eps == "1e-8"
Eps2 == "1e-16"
NCutTerm(cut, vol) == RDiv(RAdd(cut, Eps), RAdd(vol, Eps2))
Balance(c, size) ==
  LET d == RSub(size, RDiv(c.N, c.K))
      t == RMul(c.tol, c.N)
  IN IF c.stype = "quad" THEN RMul(d, d)
     ELSE RAdd(RPow(RMax(0, RSub(d, t)), 2), RPow(RMax(0, RSub(RNeg(d), t)), 2))
NCutCost(c, g, x) ==
  IF RLt(0, c.pen)
  THEN RAdd(RSum([k \in 1..c.K |-> CutOf(g, x, k - 1)]),
            RMul(c.pen, RSum([k \in 1..c.K |-> Balance(c, SizeOf(g, x, k - 1))])))
  ELSE RSum([k \in 1..c.K |-> NCutTerm(CutOf(g, x, k - 1), VolOf(g, x, k - 1))])

Objective(c, g, x) ==
  CASE c.prob = "maxcut" -> CutWeight(g, x)
    [] c.prob = "mis" -> ISValue(c, g, x)
    [] c.prob = "maxclique" -> CliqueValue(c, g, x)
    [] c.prob = "normcut" -> RNeg(NCutCost(c, g, x))
(* the annealed log-likelihood *)
LogLikCO(c, g, x) == RDiv(Objective(c, g, x), c.T)
SetNode(x, u, v) == [x EXCEPT ![u + 1] = v]
(* change of the log-likelihood when node u takes value v *)
LogRatio(c, g, x, u, v) == RDiv(RSub(Objective(c, g, SetNode(x, u, v)), Objective(c, g, x)), c.T)

(* ---- gradients of the relaxed objectives at 0/1 points ---- *)
Nbrs(g, u) == [i \in 1..Len(g.edges) |->
                 IF g.edges[i][1] = u THEN g.edges[i][2] ELSE IF g.edges[i][2] = u THEN g.edges[i][1] ELSE -1]
NbrSum(g, x, u, f(_)) == LET nb == Nbrs(g, u) IN RSum([i \in 1..Len(nb) |-> IF nb[i] < 0 \/ nb[i] = u THEN 0 ELSE f(i)])
(* partial derivative along node u (binary problems): the multilinear
   extension for max cut and independent set; for the clique penalty
   s(s-1)/2 may be relaxed as a polynomial of s or multilinearly           *)
GradBin(c, g, x, u, multilinear) ==
  IF u >= g.n THEN "0"
  ELSE LET nb == Nbrs(g, u)
           on(i) == X(x, nb[i])
           s == Cardinality(Chosen(g, x))
       IN RDiv(
          CASE c.prob = "maxcut" ->
                 LET t(i) == RMul(g.edges[i][3], 1 - 2 * X(x, nb[i])) IN NbrSum(g, x, u, t)
            [] c.prob = "mis" -> RSub(1, RMul(c.pen, NbrSum(g, x, u, on)))
            [] c.prob = "maxclique" ->
                 RSub(1, RMul(c.pen, RSub(IF multilinear THEN s - X(x, u) ELSE RDiv(2 * s - 1, 2),
                                          NbrSum(g, x, u, on)))),
          c.T)
(* normalised cut, one-hot coordinates: cut indicator 2s - s^2 of the pair sum s *)
GradNC(c, g, x, u, k) ==
  LET nb == Nbrs(g, u)
      h(i, kk) == IF X(x, i) = kk THEN 1 ELSE 0
      t(i) == 2 - 2 * (h(u, k) + h(nb[i], k))
      dcut == IF u >= g.n THEN 0 ELSE NbrSum(g, x, u, t)
      cut == CutOf(g, x, k)
      vol == VolOf(g, x, k)
      deg == IF u >= g.n THEN 0 ELSE Degree(g, u)
      d == RSub(SizeOf(g, x, k), RDiv(c.N, c.K))
      tt == RMul(c.tol, c.N)
      dbal == IF c.stype = "quad" THEN RMul(2, d)
              ELSE RSub(RMul(2, RMax(0, RSub(d, tt))), RMul(2, RMax(0, RSub(RNeg(d), tt))))
  IN RDiv(RNeg(IF RLt(0, c.pen) THEN RAdd(dcut, RMul(c.pen, dbal))
               ELSE RSub(RDiv(dcut, RAdd(vol, Eps2)),
                         RDiv(RMul(RAdd(cut, Eps), deg), RPow(RAdd(vol, Eps2), 2)))), c.T)
=============================================================================
