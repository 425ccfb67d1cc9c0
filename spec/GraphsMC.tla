------------------------------- MODULE GraphsMC -------------------------------
(* Design check: over every graph with n <= NMax nodes (every edge subset),  *)
(* every assignment: the objectives encode the problems they stand for.      *)
EXTENDS Graphs, TLC
CONSTANTS NMax, KMax
VARIABLES st

Pairs(n) == {<<u, v>> \in (0..(n-1)) \X (0..(n-1)) : u < v}
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET s == CHOOSE s \in S : TRUE IN <<s>> \o SeqOfSet(S \ {s})
Weight(e, w) == << e[1], e[2], IF w THEN IF (e[1] + 2 * e[2]) % 3 = 0 THEN "-1.5" ELSE "2" ELSE "1" >>
GraphOf(n, E, w) == LET s == SeqOfSet(E) IN [n |-> n, edges |-> [i \in 1..Cardinality(E) |-> Weight(s[i], w)]]
Bin(n) == [1..n -> {0, 1}]
Init == st = [ph |-> "start"]
Pick == /\ st.ph = "start"
        /\ \E n \in 2..NMax : \E E \in SUBSET Pairs(n) : st' = [ph |-> "graph", n |-> n, E |-> E]
Next == Pick
Spec == Init /\ [][Next]_st
C(prob, pen, K, n) == [prob |-> prob, pen |-> pen, K |-> K, N |-> n, tol |-> "0.1", stype |-> "span", T |-> "0.5"]
Max(S) == CHOOSE a \in S : \A b \in S : RLe(b, a)
Same(a, b) == RClose(a, b, "1e-9", "1e-9")
Independent(E, S) == ~ \E e \in E : e[1] \in S /\ e[2] \in S
Clique(E, S) == \A u, v \in S : u < v => <<u, v>> \in E
(* the penalised problems have the optimum of the constrained ones *)
MisExact == st.ph = "graph" =>
  LET c == C("mis", "1.001", 2, st.n) g == GraphOf(st.n, st.E, FALSE)
      best == Max({Objective(c, g, x) : x \in Bin(st.n)})
      alpha == Max({Cardinality(S) : S \in {S \in SUBSET NodeSet(g) : Independent(st.E, S)}})
  IN /\ Same(best, alpha)
     /\ \A x \in Bin(st.n) : Same(Objective(c, g, x), best) => Independent(st.E, Chosen(g, x))
CliqueExact == st.ph = "graph" =>
  LET c == C("maxclique", "2", 2, st.n) g == GraphOf(st.n, st.E, FALSE)
      gc == GraphOf(st.n, Pairs(st.n) \ st.E, FALSE)
      best == Max({Objective(c, g, x) : x \in Bin(st.n)})
      omega == Max({Cardinality(S) : S \in {S \in SUBSET NodeSet(g) : Clique(st.E, S)}})
  IN /\ Same(best, omega)
     /\ \A x \in Bin(st.n) : Same(Objective(c, g, x), Objective(C("mis", "2", 2, st.n), gc, x))
(* swapping the sides leaves the cut; local changes are sums over neighbours *)
CutExact == st.ph = "graph" =>
  LET c == C("maxcut", "0", 2, st.n) g == GraphOf(st.n, st.E, TRUE)
  IN \A x \in Bin(st.n) :
       /\ Same(Objective(c, g, x), Objective(c, g, [i \in 1..st.n |-> 1 - x[i]]))
       /\ \A u \in NodeSet(g) : \A p \in {"maxcut", "mis", "maxclique"} :
            LET cp == C(p, "2", 2, st.n)
                gr == GradBin(cp, g, x, u, TRUE)
            IN Same(LogRatio(cp, g, x, u, 1 - X(x, u)), RMul(1 - 2 * X(x, u), gr))
(* padding and edge orientation / order never matter *)
PadExact == st.ph = "graph" =>
  LET g == GraphOf(st.n, st.E, TRUE)
      m == Len(g.edges)
      flip == [n |-> g.n, edges |-> [i \in 1..m |-> <<g.edges[m + 1 - i][2], g.edges[m + 1 - i][1], g.edges[m + 1 - i][3]>>]]
  IN \A x \in Bin(st.n) : \A p \in {"maxcut", "mis", "maxclique", "normcut"} :
       LET c == C(p, IF p = "normcut" THEN "0" ELSE "2", 2, st.n)
           v == Objective(c, g, x)
       IN /\ Same(v, Objective([c EXCEPT !.N = st.n + 1], g, Append(x, 1)))
          /\ Same(v, Objective(c, flip, x))
NCutExact == st.ph = "graph" =>
  LET g == GraphOf(st.n, st.E, FALSE)
  IN \A K \in 2..KMax : \A x \in [1..st.n -> 0..(K-1)] :
      LET cuts == RSum([k \in 1..K |-> CutOf(g, x, k - 1)])
          ncut == Cardinality({i \in 1..Len(g.edges) : X(x, g.edges[i][1]) # X(x, g.edges[i][2])})
      IN /\ REq(cuts, 2 * ncut)
         /\ ISum([k \in 0..(K-1) |-> VolOf(g, x, k)], 0..(K-1)) = 2 * Len(g.edges)
         /\ \A k \in 0..(K-1) : CutOf(g, x, k) <= VolOf(g, x, k)
         /\ \A pen \in {"0", "0.7"} : LET c == C("normcut", pen, K, st.n) IN
              Same(Objective(c, g, x), Objective(c, g, [i \in 1..st.n |-> (x[i] + 1) % K]))
=============================================================================
