------------------------------ MODULE GraphTrace ------------------------------
(* Recorded energies, gradients and neighbourhood ratios of the real         *)
(* combinatorial models on instances read by the real loaders.  e.g is the   *)
(* instance as written to disk; the model saw it padded.                     *)
EXTENDS Graphs, TraceBase

Near(a, b) == RClose(a, b, "0.002", "0.0008")
NoEmpty(e, x) == \A k \in 0..(e.c.K - 1) : VolOf(e.g, x, k) > 0
ObjClauses(e) ==
  << Clause("objective: " \o e.c.prob \o " log-likelihood is the objective over the temperature",
       \A i \in 1..Len(e.rows) : LET w == LogLikCO(e.c, e.g, e.rows[i].x)
         IN \A j \in 1..Len(e.rows[i].ll) : Near(e.rows[i].ll[j], w)),
     Clause("objective: " \o e.c.prob \o " evaluation is the objective at any temperature",
       \A i \in 1..Len(e.rows) : LET w == Objective(e.c, e.g, e.rows[i].x)
         IN \A j \in 1..Len(e.rows[i].obj) : Near(e.rows[i].obj[j], w)),
     Clause("gradient: " \o e.c.prob \o " gradient of the relaxed objective",
       \A i \in 1..Len(e.rows) : LET r == e.rows[i] IN
         IF e.c.prob = "normcut"
         THEN (RLt(0, e.c.pen) \/ NoEmpty(e, r.x)) =>
              \A u \in 0..(e.c.N - 1) : \A k \in 0..(e.c.K - 1) : Near(r.gr[u + 1][k + 1], GradNC(e.c, e.g, r.x, u, k))
         ELSE \E m \in {TRUE, FALSE} : \A u \in 0..(e.c.N - 1) : Near(r.gr[u + 1], GradBin(e.c, e.g, r.x, u, m))) >>
(* every value v at every node u; a masked node is never a candidate *)
NbrClauses(e) ==
  << Clause("nbr: " \o e.c.prob \o " neighbourhood log-likelihood ratios",
       \A i \in 1..Len(e.rows) : LET r == e.rows[i] IN
         \A u \in 0..(e.c.N - 1) :
           IF e.c.prob = "normcut"
           THEN \A v \in 0..(e.c.K - 1) :
                  (RLt(0, e.c.pen) \/ (NoEmpty(e, r.x) /\ NoEmpty(e, SetNode(r.x, u, v)))) =>
                  Near(r.lr[u + 1][v + 1], LogRatio(e.c, e.g, r.x, u, v))
           ELSE IF e.c.prob = "mis" /\ u >= e.g.n THEN RLe(r.lr[u + 1], "-1e8")
           ELSE Near(r.lr[u + 1], LogRatio(e.c, e.g, r.x, u, 1 - X(r.x, u)))),
     Clause("nbr: " \o e.c.prob \o " log-likelihood returned with the ratios",
       \A i \in 1..Len(e.rows) : Near(e.rows[i].ll, LogLikCO(e.c, e.g, e.rows[i].x))),
     Clause("nbr: " \o e.c.prob \o " number of model evaluations", \A i \in 1..Len(e.rows) : e.rows[i].calls = 1),
     Clause("nbr: " \o e.c.prob \o " neighbour function changes the chosen node only",
       \A i \in 1..Len(e.rows) : LET r == e.rows[i] IN
         \A j \in 1..Len(r.moves) : r.moves[j][2] = SetNode(r.x, r.moves[j][1], 1 - X(r.x, r.moves[j][1]))) >>
(* independent binary variables: e.p the logits of the ones *)
BernClauses(e) ==
  << Clause("nbr: bernoulli neighbourhood log-likelihood ratios", \A i \in 1..Len(e.rows) : LET r == e.rows[i] IN
       \A u \in 1..Len(r.x) : Near(r.lr[u], RMul(1 - 2 * r.x[u], e.p[u]))),
     Clause("nbr: bernoulli log-likelihood returned with the ratios", \A i \in 1..Len(e.rows) :
       Near(e.rows[i].ll, RSum([u \in 1..Len(e.rows[i].x) |-> RMul(e.rows[i].x[u], e.p[u])]))),
     Clause("nbr: bernoulli number of model evaluations", \A i \in 1..Len(e.rows) : e.rows[i].calls = 1),
     Clause("nbr: bernoulli neighbour function changes the chosen node only", \A i \in 1..Len(e.rows) : LET r == e.rows[i] IN
       \A j \in 1..Len(r.moves) : r.moves[j][2] = SetNode(r.x, r.moves[j][1], 1 - X(r.x, r.moves[j][1]))) >>
(* the locally balanced jump: neighbour u of x with probability g(ratio_u)/sum.
   e.cnt[u+1]: how often node u was flipped in e.N draws from e.x             *)
Bal(b, r) == CASE b = "SQRT" -> RSqrt(r) [] b = "RATIO" -> RDiv(r, RAdd(r, 1)) [] b = "MAX" -> RMax(r, 1) [] b = "MIN" -> RMin(r, 1)
JumpRatio(e, u) ==
  IF e.c.prob = "mis" /\ u >= e.g.n THEN "0"
  ELSE IF e.c.prob = "bernoulli" THEN RExp(RMul(1 - 2 * X(e.x, u), e.p[u + 1]))
  ELSE RExp(LogRatio(e.c, e.g, e.x, u, 1 - X(e.x, u)))
JumpClauses(e) ==
  LET w == [u \in 1..Len(e.x) |-> Bal(e.b, JumpRatio(e, u - 1))]
      z == RSum(w)
      Plausible(k, p) == RLe(RAbs(RSub(k, RMul(e.N, p))), RAdd(4, RMul("6.5", RSqrt(RMul(e.N, RMul(p, RSub(1, p)))))))
  IN << Clause("jump: every draw moves to a neighbour", \A i \in 1..Len(e.other) : e.other[i] = 0),
        Clause("jump: neighbours drawn in proportion to the balanced ratio",
          \A u \in 1..Len(e.x) : (e.b = "MAX" /\ e.c.prob = "mis" /\ u > e.g.n) \/ Plausible(e.cnt[u], RDiv(w[u], z))),
        Clause("jump: model evaluations counted", e.calls = 1) >>
Clauses(e) == CASE e.ev = "co" -> ObjClauses(e)
                [] e.ev = "nbr" -> NbrClauses(e)
                [] e.ev = "bern" -> BernClauses(e)
                [] e.ev = "jump" -> JumpClauses(e)
                [] e.ev = "raised" -> << Clause("raised: " \o e.what, FALSE) >>
Init == l = 1 /\ bad = <<>>
Check == l <= Len(Trace) /\ l' = l + 1 /\ Note(Clauses(Trace[l]))
Next == Check \/ WriteVerdict
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
