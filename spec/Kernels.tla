------------------------------ MODULE Kernels ------------------------------
(***************************************************************************)
(* Transition kernels of the DISCS samplers over a finite space.           *)
(*                                                                         *)
(* A sampler at a fixed tuning state is described by its moves: for each   *)
(* source state s, MovesOf(c, m, s) is a sequence of records               *)
(*   [y |-> target state, q |-> probability of proposing this move,        *)
(*    a |-> acceptance probability]                                        *)
(* whose q sum to one.  The same y may be reached by several moves (paths).*)
(*                                                                         *)
(*   c : [kind, K, n, ...]  sampler configuration and tuning               *)
(*   m : [ll, gr]  target log-density per state and, per state, the        *)
(*       gradient handed to the sampler: per coordinate (K = 2), or per    *)
(*       coordinate and category (K > 2).  The gradient is unconstrained:  *)
(*       Metropolis-Hastings correctness may not depend on its quality.    *)
(***************************************************************************)
EXTENDS Space, SequencesExt

S(c) == 1..Card(c)

(*------------------------- locally balanced weights ---------------------*)
LogSigmoid(t) == IF RLt(t, 0) THEN RSub(t, RLog1p(RExp(t)))
                 ELSE RNeg(RLog1p(RExp(RNeg(t))))
BalLog(c, t) ==
  CASE c.bal = "SQRT"  -> RDiv(t, 2)
    [] c.bal = "RATIO" -> LogSigmoid(t)
    [] c.bal = "MAX"   -> RMax(t, 0)
    [] c.bal = "MIN"   -> RMin(t, 0)

(* first-order estimate of log pi(x with x_i := v) - log pi(x) *)
Delta(c, m, s, x, i, v) ==
  IF c.K = 2 THEN RMul(1 - 2 * x[i], m.gr[s][i])
  ELSE RSub(m.gr[s][i][v + 1], m.gr[s][i][x[i] + 1])

OtherVals(c, x, i) == (0..(c.K - 1)) \ {x[i]}
Masked(c, i) == c.mask[i] = 0

(*--------------------------------- MH -----------------------------------*)
MHAcc(la) == IF RLe(0, la) THEN "1.0" ELSE RExp(la)
Move(y, q, a) == [y |-> y, q |-> q, a |-> a]

(* K(s, .) from the moves out of s *)
KernelRow(c, moves, s) ==
  LET contrib(y) == RSum([k \in 1..Len(moves) |->
                      IF moves[k].y = y THEN RMul(moves[k].q, moves[k].a) ELSE "0.0"])
      stay == RSum([k \in 1..Len(moves) |-> RMul(moves[k].q, RSub(1, moves[k].a))])
  IN [y \in S(c) |-> IF y = s THEN RAdd(contrib(y), stay) ELSE contrib(y)]

(*------------------------------ random walk -----------------------------*)
RWMoves(c, m, s) ==
  LET x == Digits(c, s)
      p == RMin(RDiv(c.radius, c.n), 1)
      q(y) == LET z == Digits(c, y) IN
              RProd([i \in 1..c.n |-> IF x[i] = z[i] THEN RSub(1, p) ELSE RDiv(p, c.K - 1)])
  IN [y \in S(c) |-> Move(y, q(y), MHAcc(RSub(m.ll[y], m.ll[s])))]

(*------------------------- Gibbs and block Gibbs ------------------------*)
(* resample the coordinates in blk from the exact conditional *)
CondMoves(c, m, s, blk) ==
  LET x == Digits(c, s)
      ok == {y \in S(c) : \A i \in 1..c.n : i \in blk \/ Digits(c, y)[i] = x[i]}
      ys == SetToSeq(ok)
      lz == RLogSumExp([k \in 1..Len(ys) |-> m.ll[ys[k]]])
  IN [k \in 1..Len(ys) |-> Move(ys[k], RExp(RSub(m.ll[ys[k]], lz)), "1.0")]
GibbsMoves(c, m, s) == CondMoves(c, m, s, {c.index + 1})
BlockOf(c) == {c.index + j : j \in 1..c.blk} \cap (1..c.n)
BlockGibbsMoves(c, m, s) == CondMoves(c, m, s, BlockOf(c))

(*------------------------------ Hamming ball ----------------------------*)
(* radius-1 ball inside the block, as a sequence; a block position beyond  *)
(* the last coordinate contributes the centre itself                       *)
Ball(c, s) ==
  LET x == Digits(c, s)
      changes == [k \in 1..(c.blk * (c.K - 1)) |->
        LET i == c.index + 1 + ((k - 1) \div (c.K - 1))
            v == 1 + ((k - 1) % (c.K - 1))
        IN IF i > c.n THEN s ELSE IndexOf(c, SetAt(c, x, i, (x[i] + v) % c.K))]
  IN <<s>> \o changes
HBMoves(c, m, s) ==
  LET B == Ball(c, s)
      L == Len(B)
      one(u) == LET Bu == Ball(c, u)
                    lz == RLogSumExp([k \in 1..L |-> m.ll[Bu[k]]])
                IN [k \in 1..L |-> Move(Bu[k], RDiv(RExp(RSub(m.ll[Bu[k]], lz)), L), "1.0")]
      cat[j \in 0..L] == IF j = 0 THEN <<>> ELSE cat[j - 1] \o one(B[j])
  IN cat[L]

(*--------------------- local informed proposal tables -------------------*)
(* log-probability of each (coordinate, new value) pair at s; masked       *)
(* coordinates carry logit -1e9                                            *)
LogitAt(c, m, s, x, i, v) == IF Masked(c, i) THEN "-1.0E9" ELSE BalLog(c, Delta(c, m, s, x, i, v))
(* K = 2: <<log p_1, .., log p_n>> *)
BinDist(c, m, s) ==
  LET x == Digits(c, s)
      lg == TLCEval([i \in 1..c.n |-> LogitAt(c, m, s, x, i, 1 - x[i])])
      lz == RLogSumExp(lg)
  IN TLCEval([i \in 1..c.n |-> RSub(lg[i], lz)])
(* K > 2: sequence over coordinates of sequence over categories; the current *)
(* category is excluded ("-Infinity") *)
CatDist(c, m, s) ==
  LET x == Digits(c, s)
      lg == TLCEval([i \in 1..c.n |-> [v \in 1..c.K |->
              IF v - 1 = x[i] THEN "-Infinity" ELSE LogitAt(c, m, s, x, i, v - 1)]])
      lz == RLogSumExp([i \in 1..c.n |-> RLogSumExp(lg[i])])
  IN TLCEval([i \in 1..c.n |-> [v \in 1..c.K |-> RSub(lg[i][v], lz)]])

FlipAll(c, x, I) == IndexOf(c, [i \in 1..c.n |-> IF i \in I THEN 1 - x[i] ELSE x[i]])

(*--------------------------- Gibbs with gradients ------------------------*)
GWGMoves(c, m, ds, s) ==
  LET x == Digits(c, s) IN
  IF c.K = 2 THEN
    LET seqs == SetToSeq(SeqsOf(1..c.n, c.flips))
        mv(f) == LET y == FlipAll(c, x, Range1(f))
                     lf == RSum([k \in 1..c.flips |-> ds[s][f[k]]])
                     lb == RSum([k \in 1..c.flips |-> ds[y][f[k]]])
                 IN Move(y, RExp(lf), MHAcc(RSub(RAdd(m.ll[y], lb), RAdd(m.ll[s], lf))))
    IN [k \in 1..Len(seqs) |-> mv(seqs[k])]
  ELSE
    LET mv(i, v) == LET y == IndexOf(c, SetAt(c, x, i, v))
                        lf == ds[s][i][v + 1]
                        lb == ds[y][i][x[i] + 1]
                    IN Move(y, RExp(lf), MHAcc(RSub(RAdd(m.ll[y], lb), RAdd(m.ll[s], lf))))
        ps == SetToSeq({<<i, v>> \in (1..c.n) \X (0..(c.K - 1)) : v # x[i]})
    IN [k \in 1..Len(ps) |-> mv(ps[k][1], ps[k][2])]

(*----------------------------- path auxiliary ----------------------------*)
(* log-probability of drawing the index sequence f without replacement from *)
(* the distribution with log-probabilities ps                               *)
NoReplLL(ps, f) ==
  LET used[k \in 0..Len(f)] == IF k = 0 THEN "0.0" ELSE RAdd(used[k - 1], RExp(ps[f[k]]))
  IN RSum([k \in 1..Len(f) |-> RSub(ps[f[k]], RLog(RSub(1, used[k - 1])))])
RevSeq(f) == [k \in 1..Len(f) |-> f[Len(f) + 1 - k]]
PASMoves(c, m, ds, s) ==
  LET x == Digits(c, s)
      L == c.flips
  IN
  IF c.K = 2 THEN
    LET seqs == SetToSeq(InjSeqs({i \in 1..c.n : ~Masked(c, i)}, L))
        mv(f) == LET y == FlipAll(c, x, Range1(f))
                     lf == NoReplLL(ds[s], f)
                     lb == NoReplLL(ds[y], RevSeq(f))
                 IN Move(y, RExp(lf), MHAcc(RSub(RAdd(m.ll[y], lb), RAdd(m.ll[s], lf))))
    IN [k \in 1..Len(seqs) |-> mv(seqs[k])]
  ELSE
    LET mg == ds.mg
        cd == ds.cd
        seqs == InjSeqs({i \in 1..c.n : ~Masked(c, i)}, L)
        vals(f) == {w \in [1..L -> 0..(c.K - 1)] : \A k \in 1..L : w[k] # x[f[k]]}
        all == SetToSeq(UNION {{<<f, w>> : w \in vals(f)} : f \in seqs})
        lval(t, i, v) == RSub(cd[t][i][v + 1], mg[t][i])
        mv(f, w) ==
          LET z == [i \in 1..c.n |-> IF \E k \in 1..L : f[k] = i
                                     THEN w[CHOOSE k \in 1..L : f[k] = i] ELSE x[i]]
              y == IndexOf(c, z)
              lf == RAdd(NoReplLL(mg[s], f), RSum([k \in 1..L |-> lval(s, f[k], w[k])]))
              lb == RAdd(NoReplLL(mg[y], RevSeq(f)), RSum([k \in 1..L |-> lval(y, f[k], x[f[k]])]))
          IN Move(y, RExp(lf), MHAcc(RSub(RAdd(m.ll[y], lb), RAdd(m.ll[s], lf))))
    IN [k \in 1..Len(all) |-> mv(all[k][1], all[k][2])]

(*------------------------------ DMALA and DLMC ---------------------------*)
(* log-weights of every (coordinate, category) entry at s, flattened; for   *)
(* K = 2 one entry per coordinate (the flip)                                *)
WeightEntries(c, m, s) ==
  LET x == Digits(c, s) IN
  IF c.K = 2 THEN [i \in 1..c.n |-> BalLog(c, Delta(c, m, s, x, i, 1 - x[i]))]
  ELSE [j \in 1..(c.n * c.K) |->
          BalLog(c, Delta(c, m, s, x, 1 + ((j - 1) \div c.K), (j - 1) % c.K))]
LocalLogZ(c, m, s) == RLogSumExp(WeightEntries(c, m, s))
(* step size used from s: "fixed" tuning, or re-normalised at each state    *)
LogTauAt(c, m, s) == IF c.taumode = "local" THEN RSub(RLog(c.tau0), LocalLogZ(c, m, s)) ELSE c.logtau

Log1mExp(t) == RLog(RNeg(RExpm1(RNeg(RAbs(t)))))

(* per-coordinate move distribution at s with step size lt: sequence over   *)
(* coordinates of sequence over categories of log-probabilities             *)
DMALADist(c, m, s, lt) ==
  LET x == Digits(c, s)
      lw(i, v) == IF v = x[i] THEN "0.0" ELSE RAdd(lt, BalLog(c, Delta(c, m, s, x, i, v)))
      row(i) == LET r == TLCEval([v \in 1..c.K |-> lw(i, v - 1)])
                    z == RLogSumExp(r)
                IN TLCEval([v \in 1..c.K |-> RSub(r[v], z)])
  IN TLCEval([i \in 1..c.n |-> row(i)])
DLMCDist(c, m, s, lt) ==
  LET x == Digits(c, s)
      dl(i, v) == Delta(c, m, s, x, i, v)
      wt(i, v) == RAdd(lt, BalLog(c, dl(i, v)))
      (* binary: heat-bath probability of the flip; categorical: softmax *)
      nu(i, v) == IF c.K = 2 THEN LogSigmoid(dl(i, v))
                  ELSE RSub(dl(i, v), RLogSumExp([u \in 1..c.K |-> dl(i, u - 1)]))
      jump(i, v) == IF c.solver = "interpolate"
                    THEN RAdd(nu(i, v), Log1mExp(RExp(RSub(wt(i, v), nu(i, v)))))
                    ELSE wt(i, v)
      rowBin(i) == LET j == RMin(jump(i, 1 - x[i]), nu(i, 1 - x[i]))
                   IN [v \in 1..2 |-> IF v - 1 = x[i] THEN RLog1p(RNeg(RExp(j))) ELSE j]
      rowCat(i) ==
        LET out == RSum([v \in 1..c.K |-> IF v - 1 = x[i] THEN "0.0" ELSE RExp(jump(i, v - 1))])
            stay == RMax(RLog1p(RNeg(RMin(out, "1.0"))), nu(i, x[i]))
            r == TLCEval([v \in 1..c.K |-> IF v - 1 = x[i] THEN stay ELSE jump(i, v - 1)])
            z == RLogSumExp(r)
        IN TLCEval([v \in 1..c.K |-> RSub(r[v], z)])
  IN TLCEval([i \in 1..c.n |-> IF c.K = 2 THEN rowBin(i) ELSE rowCat(i)])

LangevinMoves(c, m, ds, s) ==
  LET x == Digits(c, s)
      mv(y) == LET z == Digits(c, y)
                   lf == RSum([i \in 1..c.n |-> ds[s][i][z[i] + 1]])
                   lb == RSum([i \in 1..c.n |-> ds[y][i][x[i] + 1]])
               IN Move(y, RExp(lf), MHAcc(RSub(RAdd(m.ll[y], lb), RAdd(m.ll[s], lf))))
  IN [y \in S(c) |-> mv(y)]

(*-------------------------------- dispatch -------------------------------*)
(* proposal tables of every state, computed once per target.  A step size  *)
(* that is re-normalised at each state is re-evaluated at the proposal, so  *)
(* forward and backward probabilities both come from the same table.        *)
ProposalTables(c, m) ==
  CASE c.kind = "gwg" /\ c.K = 2 -> TLCEval([t \in S(c) |-> BinDist(c, m, t)])
    [] c.kind = "gwg" /\ c.K > 2 -> TLCEval([t \in S(c) |-> CatDist(c, m, t)])
    [] c.kind = "path_auxiliary" /\ c.K = 2 -> TLCEval([t \in S(c) |-> BinDist(c, m, t)])
    [] c.kind = "path_auxiliary" /\ c.K > 2 ->
         LET cd == TLCEval([t \in S(c) |-> CatDist(c, m, t)])
         IN [cd |-> cd, mg |-> TLCEval([t \in S(c) |-> [i \in 1..c.n |-> RLogSumExp(cd[t][i])]])]
    [] c.kind = "dmala" -> TLCEval([t \in S(c) |-> DMALADist(c, m, t, LogTauAt(c, m, t))])
    [] c.kind = "dlmc"  -> TLCEval([t \in S(c) |-> DLMCDist(c, m, t, LogTauAt(c, m, t))])
    [] OTHER -> <<>>

MovesOf(c, m, ds, s) ==
  CASE c.kind = "randomwalk"     -> RWMoves(c, m, s)
    [] c.kind = "gibbs"          -> GibbsMoves(c, m, s)
    [] c.kind = "blockgibbs"     -> BlockGibbsMoves(c, m, s)
    [] c.kind = "hammingball"    -> HBMoves(c, m, s)
    [] c.kind = "gwg"            -> GWGMoves(c, m, ds, s)
    [] c.kind = "path_auxiliary" -> PASMoves(c, m, ds, s)
    [] c.kind \in {"dmala", "dlmc"} -> LangevinMoves(c, m, ds, s)

AllMoves(c, m) ==
  LET ds == TLCEval(ProposalTables(c, m))
  IN TLCEval([s \in S(c) |-> TLCEval(MovesOf(c, m, ds, s))])
KernelFrom(c, am) == TLCEval([s \in S(c) |-> KernelRow(c, am[s], s)])
Kernel(c, m) == KernelFrom(c, AllMoves(c, m))

(* normalised target *)
Pi(c, m) == LET lz == RLogSumExp([s \in S(c) |-> m.ll[s]])
            IN TLCEval([s \in S(c) |-> RExp(RSub(m.ll[s], lz))])

(*------------------------------- properties ------------------------------*)
RowsNormalised(c, am) ==
  \A s \in S(c) : RClose(RSum([k \in 1..Len(am[s]) |-> am[s][k].q]), 1, "1e-9", 0)
(* flow into t equals the mass of t *)
BalancedAt(c, k, pi, t) ==
  RClose(RSum([s \in S(c) |-> RMul(pi[s], k[s][t])]), pi[t], "1e-9", "1e-9")
Stationary(c, k, pi) == \A t \in S(c) : BalancedAt(c, k, pi, t)
DetailedBalance(c, k, pi) ==
  \A s, t \in S(c) : RClose(RMul(pi[s], k[s][t]), RMul(pi[t], k[t][s]), "1e-9", "1e-9")
=============================================================================
