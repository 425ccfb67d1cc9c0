------------------------------ MODULE MathTrace ------------------------------
EXTENDS MathPrims, TraceBase

Plausible(n, N, p) ==
  RLe(RAbs(RSub(n, RMul(N, p))),
      RAdd(RMul("6.5", RSqrt(RMul(N, RMul(p, RMax(0, RSub(1, p)))))),
           RAdd(14, RMul(N, "0.0001"))))

(* ordered draws; cnt is indexed by the row-major number of the sequence *)
NthSeq(C, L, q) == [k \in 1..L |-> 1 + (((q - 1) \div IPow(C, L - k)) % C)]
DrawClauses(e) ==
  LET lp == e.lp  C == Len(lp)  L == e.L  repl == e.repl = 1
  IN << Clause("draw: " \o e.mode \o " frequencies",
          \A q \in 1..IPow(C, L) : Plausible(e.cnt[q], e.N, SeqProb(lp, NthSeq(C, L, q), repl))),
        Clause("draw: all outcomes accounted for", e.other = 0) >>
(* count vectors (or selection masks); outs lists <<vector, count>> *)
CountClauses(e) ==
  LET lp == e.lp  C == Len(lp)
  IN << Clause("draw: " \o e.mode \o " sizes",
          \A i \in 1..Len(e.outs) :
             LET v == e.outs[i][1]
                 f[k \in 0..C] == IF k = 0 THEN 0 ELSE f[k - 1] + v[k] IN f[C] = e.L),
        Clause("draw: " \o e.mode \o " frequencies",
          \A v \in {CountVec(C, f) : f \in SeqsOf(1..C, e.L)} :
             LET i == {j \in 1..Len(e.outs) : e.outs[j][1] = v}
                 n == IF i = {} THEN 0 ELSE e.outs[CHOOSE j \in i : TRUE][2]
             IN Plausible(n, e.N, CountProb(lp, e.L, v, e.repl = 1))) >>
(* per-draw log-likelihoods: seq is the drawn order, ll the reported value   *)
(* of each drawn position                                                    *)
LLClauses(e) ==
  << Clause("ll: " \o e.mode,
      \A r \in 1..Len(e.obs) :
        LET f == e.obs[r].seq
            w == PosLL(e.obs[r].lp, f, e.repl = 1)
        IN Len(e.obs[r].ll) = Len(f) /\
           \A k \in 1..Len(f) : RClose(e.obs[r].ll[k], w[k], "0.002", "0.002")),
     Clause("ll: " \o e.mode \o " zero elsewhere", \A r \in 1..Len(e.obs) : e.obs[r].rest = 0) >>
(* many classes and draws: the number of draws, how often each class is      *)
(* drawn (with replacement L p_i; without, L / C when all are alike)         *)
ManyClauses(e) ==
  LET C == Len(e.lp)
      p(i) == IF e.repl = 1 THEN RExp(e.lp[i]) ELSE RDiv(e.L, C)
      n == IF e.repl = 1 THEN RMul(e.N, e.L) ELSE e.N
  IN << Clause("draw: " \o e.mode \o " sizes", e.sizes = <<e.L>>),
        Clause("draw: " \o e.mode \o " no class twice", e.repl = 1 \/ e.top <= 1),
        Clause("draw: " \o e.mode \o " frequencies", e.repl = 1 \/ e.uniform = 1 =>
               \A i \in 1..C : Plausible(e.cnt[i], n, p(i))),
        Clause("draw: " \o e.mode \o " keys give different draws", e.twins = 0) >>
BernClauses(e) ==
  << Clause("accept test: frequency", \A i \in 1..Len(e.lp) :
        Plausible(e.cnt[i], e.N, RMin(1, RExp(e.lp[i])))),
     Clause("accept test: certain", \A i \in 1..Len(e.lp) : RLe(0, e.lp[i]) => e.cnt[i] = e.N),
     Clause("accept test: impossible", \A i \in 1..Len(e.lp) : RLe(e.lp[i], "-60") => e.cnt[i] = 0) >>
MHClauses(e) ==
  << Clause("accept test: keeps whole samples", \A r \in 1..Len(e.rows) :
        e.rows[r].out = (IF e.rows[r].used = 1 THEN e.rows[r].new ELSE e.rows[r].cur)),
     Clause("accept test: both outcomes seen", {e.rows[r].used : r \in 1..Len(e.rows)} = {0, 1}) >>
FnClauses(e) ==
  CASE e.fn = "log1mexp" ->
         << Clause("log1mexp", \A i \in 1..Len(e.xs) :
              RClose(e.ys[i], RLog(RNeg(RExpm1(RNeg(RAbs(e.xs[i]))))), "0.00002", "0.0005")) >>
    [] e.fn = "renorm" ->
         << Clause("no-replacement renormalisation", \A i \in 1..Len(e.xs) :
              LET w == PosLL(e.xs[i], [k \in 1..Len(e.xs[i]) |-> k], FALSE)
              IN \A k \in 1..Len(w) : RClose(e.ys[i][k], w[k], "0.003", "0.003")) >>
    [] e.fn = "comb" -> << Clause("binomial coefficient", \A i \in 1..Len(e.xs) :
              e.ys[i] = Choose(e.xs[i][1], e.xs[i][2])) >>
    [] e.fn = "prod" -> << Clause("product", \A i \in 1..Len(e.xs) : e.ys[i] = ProdSeq(e.xs[i])) >>
(* joint law of two chains of one batch, started in the same state *)
JointClauses(e) ==
  LET c == e.cfg  m == [ll |-> e.ll, gr |-> e.gr]
      k == Kernel(c, m)
  IN << Clause("indep: chains of a batch move independently",
          \A s, t1, t2 \in S(c) :
             Plausible(e.cnt[s][(t1 - 1) * Card(c) + t2], e.N, RMul(k[s][t1], k[s][t2]))),
        Clause("indep: successive keys give independent steps",
          \A s, t1, t2 \in S(c) :
             Plausible(e.cnt2[s][(t1 - 1) * Card(c) + t2], e.N, RMul(k[s][t1], k[t1][t2]))) >>

(* Chains of one batch, all from state s: any two coincide with probability *)
(* q = sum k^2; pairs (i, i+d) and (i+d, i+2d) overlap, hence the third     *)
(* moment in the variance.                                                  *)
LagClauses(e) ==
  LET c == e.cfg  m == [ll |-> e.ll, gr |-> e.gr]
      k == TLCEval(Kernel(c, m)[e.s])
      q == TLCEval(RSum([t \in S(c) |-> RPow(k[t], 2)]))
      third == RSum([t \in S(c) |-> RPow(k[t], 3)])
      var == RMul(e.N, RAdd(RMul(q, RSub(1, q)), RMul(2, RMax(0, RSub(third, RPow(q, 2))))))
      tol == TLCEval(RAdd(RMul("6.5", RSqrt(RMax(0, var))), RAdd(14, RMul(e.N, "0.002"))))
      mid == TLCEval(RMul(e.N, q))
  IN << Clause("indep: chains of a large batch coincide as often as independent ones",
          \A d \in 1..Len(e.agree) : RLe(RAbs(RSub(e.agree[d], mid)), tol)) >>

Clauses(e) == CASE e.ev = "draw"  -> DrawClauses(e)
                [] e.ev = "count" -> CountClauses(e)
                [] e.ev = "ll"    -> LLClauses(e)
                [] e.ev = "many"  -> ManyClauses(e)
                [] e.ev = "bern"  -> BernClauses(e)
                [] e.ev = "mh"    -> MHClauses(e)
                [] e.ev = "fn"    -> FnClauses(e)
                [] e.ev = "joint" -> JointClauses(e)
                [] e.ev = "lags" -> LagClauses(e)
                [] e.ev = "raised" -> << Clause("raised: " \o e.what, FALSE) >>

Init == l = 1 /\ bad = <<>>
Check == l <= Len(Trace) /\ l' = l + 1 /\ Note(Clauses(Trace[l]))
Next == Check \/ WriteVerdict
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
