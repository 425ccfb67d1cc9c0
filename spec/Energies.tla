------------------------------ MODULE Energies ------------------------------
(***************************************************************************)
(* The unnormalised log-likelihoods of the classical models and of the     *)
(* RBMs, and their gradients with respect to the (one-hot, for more than   *)
(* two categories) sample.  Samples hold category numbers 0..K-1.          *)
(* Reals are RealArith strings; matrices are sequences of rows.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, RealArith

Sp(v) == 2 * v - 1                           \* spin of a binary value
SumOver(n, f(_)) == RSum([i \in 1..n |-> f(i)])
Softplus(a) == RAdd(RMax(a, 0), RLog1p(RExp(RNeg(RAbs(a)))))
Sigmoid(a) == RDiv(1, RAdd(1, RExp(RNeg(a))))
Hot(v, k) == IF v = k - 1 THEN 1 ELSE 0      \* k is 1-based

------------------------------- (* factorised *) ----------------------------
(* samples and parameters flattened row-major *)
BernLL(p, x) == SumOver(Len(x), LAMBDA i : RMul(x[i], p.th[i]))
BernGrad(p, x) == p.th
CatLL(p, x) == SumOver(Len(x), LAMBDA i : R(p.th[i][x[i] + 1]))
CatGrad(p, x) == p.th

--------------------------------- (* lattices *) -----------------------------
(* x[r][c]; p.wh[r][c] couples (r,c)-(r,c+1), p.wv[r][c] couples            *)
(* (r,c)-(r+1,c); the last column of wh and the last row of wv are unused:  *)
(* the lattice has open boundaries.  The log-likelihood is minus the energy.*)
NR(x) == Len(x)
NC(x) == Len(x[1])
SumGrid(R_, C_, f(_, _)) == SumOver(R_, LAMBDA r : SumOver(C_, LAMBDA c : f(r, c)))
IsingLL(p, x) ==
  RNeg(RSum(<<
    SumGrid(NR(x), NC(x) - 1, LAMBDA r, c : RMul(p.wh[r][c], Sp(x[r][c]) * Sp(x[r][c + 1]))),
    SumGrid(NR(x) - 1, NC(x), LAMBDA r, c : RMul(p.wv[r][c], Sp(x[r][c]) * Sp(x[r + 1][c]))),
    SumGrid(NR(x), NC(x), LAMBDA r, c : RMul(p.b[r][c], Sp(x[r][c]))) >>))
(* the four neighbours of (r,c): <<coupling, value of the neighbour>> *)
Nbrs(p, x, r, c) ==
  (IF c < NC(x) THEN <<  <<p.wh[r][c], x[r][c + 1]>> >> ELSE <<>>) \o
  (IF c > 1 THEN << <<p.wh[r][c - 1], x[r][c - 1]>> >> ELSE <<>>) \o
  (IF r < NR(x) THEN << <<p.wv[r][c], x[r + 1][c]>> >> ELSE <<>>) \o
  (IF r > 1 THEN << <<p.wv[r - 1][c], x[r - 1][c]>> >> ELSE <<>>)
IsingGrad(p, x) ==
  [r \in 1..NR(x) |-> [c \in 1..NC(x) |->
    LET nb == Nbrs(p, x, r, c)
    IN RMul("-2.0", RAdd(p.b[r][c], SumOver(Len(nb), LAMBDA i : RMul(nb[i][1], Sp(nb[i][2])))))]]
(* Potts: wh, wv, b carry one more index, the category; only equal           *)
(* neighbours interact                                                       *)
Same(a, b, w) == IF a = b THEN R(w[a + 1]) ELSE "0.0"
PottsLL(p, x) ==
  RNeg(RSum(<<
    SumGrid(NR(x), NC(x) - 1, LAMBDA r, c : Same(x[r][c], x[r][c + 1], p.wh[r][c])),
    SumGrid(NR(x) - 1, NC(x), LAMBDA r, c : Same(x[r][c], x[r + 1][c], p.wv[r][c])),
    SumGrid(NR(x), NC(x), LAMBDA r, c : R(p.b[r][c][x[r][c] + 1])) >>))
PottsGrad(p, x) ==
  [r \in 1..NR(x) |-> [c \in 1..NC(x) |-> [k \in 1..Len(p.b[r][c]) |->
    LET nb == Nbrs(p, x, r, c)
    IN RNeg(RAdd(p.b[r][c][k], SumOver(Len(nb), LAMBDA i : RMul(nb[i][1][k], Hot(nb[i][2], k)))))]]]

---------------------------------- (* FHMM *) --------------------------------
(* x[t][j]: L time steps of K hidden chains, observations y[t] Gaussian      *)
(* around b plus the chains' contributions                                    *)
LB(pr, v) == IF v = 1 THEN RLog(pr) ELSE RLog(RSub(1, pr))
FhmmBinResid(p, x, t) == RSub(RSub(p.y[t], p.b), SumOver(Len(p.w), LAMBDA j : RMul(p.w[j], x[t][j])))
FhmmBinLL(p, x) ==
  RSum(<<
    SumOver(Len(p.w), LAMBDA j : LB(p.alpha, x[1][j])),
    SumOver(Len(x) - 1, LAMBDA t : SumOver(Len(p.w), LAMBDA j :
        LB(RSub(1, p.beta), IF x[t][j] = x[t + 1][j] THEN 0 ELSE 1))),
    RNeg(RDiv(SumOver(Len(x), LAMBDA t : RPow(FhmmBinResid(p, x, t), 2)), RMul(2, RPow(p.sigma, 2)))) >>)
(* staying has log-odds log(beta/(1-beta)) over changing *)
FhmmBinGrad(p, x) ==
  LET D == RLog(RDiv(RSub(1, p.beta), p.beta))       \* change minus stay
      link(t, j, u) == RMul(D, 1 - 2 * x[u][j])      \* d/dx_t of the change indicator with x_u
  IN [t \in 1..Len(x) |-> [j \in 1..Len(p.w) |->
       RSum(<< IF t = 1 THEN RLog(RDiv(p.alpha, RSub(1, p.alpha))) ELSE "0.0",
               IF t > 1 THEN link(t, j, t - 1) ELSE "0.0",
               IF t < Len(x) THEN link(t, j, t + 1) ELSE "0.0",
               RDiv(RMul(FhmmBinResid(p, x, t), p.w[j]), RPow(p.sigma, 2)) >>)]]
(* K > 2: la is the log initial law, lb[a][b] the log transition law        *)
FhmmCatResid(p, x, t) ==
  RSub(RSub(p.y[t], p.b), SumOver(Len(p.w), LAMBDA j : R(p.w[j][x[t][j] + 1])))
LogTrans(p, a, b) ==
  RLog(IF a = b THEN R(p.beta) ELSE RDiv(RSub(1, p.beta), p.ncat - 1))
FhmmCatLL(p, x) ==
  RSum(<<
    SumOver(Len(p.w), LAMBDA j : R(p.la[x[1][j] + 1])),
    SumOver(Len(x) - 1, LAMBDA t : SumOver(Len(p.w), LAMBDA j : LogTrans(p, x[t][j], x[t + 1][j]))),
    RNeg(RDiv(SumOver(Len(x), LAMBDA t : RPow(FhmmCatResid(p, x, t), 2)), RMul(2, RPow(p.sigma, 2)))) >>)
(* The log of the multinomial coefficient vanishes on one-hot rows, its     *)
(* gamma-function extension has slope 1 at the zero entries: relax = 1      *)
(* includes that slope, relax = 0 does not.  Both extend the same function. *)
FhmmCatGrad(p, x, relax) ==
  [t \in 1..Len(x) |-> [j \in 1..Len(p.w) |-> [k \in 1..p.ncat |->
     RSum(<< IF t = 1 THEN RAdd(p.la[k], relax * (1 - Hot(x[t][j], k))) ELSE "0.0",
             IF t > 1 THEN LogTrans(p, x[t - 1][j], k - 1) ELSE "0.0",
             IF t < Len(x) THEN LogTrans(p, k - 1, x[t + 1][j]) ELSE "0.0",
             RDiv(RMul(FhmmCatResid(p, x, t), p.w[j][k]), RPow(p.sigma, 2)) >>)]]]

----------------------------------- (* RBM *) --------------------------------
(* binary: w[i][h]; categorical: w[h][i][k].  The hidden units are summed out *)
RbmBinPre(p, v, h) == RAdd(p.bh[h], SumOver(Len(v), LAMBDA i : RMul(v[i], p.w[i][h])))
RbmBinLL(p, v) ==
  RAdd(SumOver(Len(p.bh), LAMBDA h : Softplus(RbmBinPre(p, v, h))),
       SumOver(Len(v), LAMBDA i : RMul(v[i], p.bv[i])))
RbmBinGrad(p, v) ==
  [i \in 1..Len(v) |-> RAdd(p.bv[i], SumOver(Len(p.bh), LAMBDA h : RMul(Sigmoid(RbmBinPre(p, v, h)), p.w[i][h])))]
RbmBinPreV(p, hh, i) == RAdd(p.bv[i], SumOver(Len(hh), LAMBDA h : RMul(hh[h], p.w[i][h])))
RbmBinJoint(p, v, hh) ==
  RAdd(SumOver(Len(p.bh), LAMBDA h : RMul(hh[h], RbmBinPre(p, v, h))), SumOver(Len(v), LAMBDA i : RMul(v[i], p.bv[i])))
RbmCatPre(p, v, h) == RAdd(p.bh[h], SumOver(Len(v), LAMBDA i : R(p.w[h][i][v[i] + 1])))
RbmCatLL(p, v) ==
  RAdd(SumOver(Len(p.bh), LAMBDA h : Softplus(RbmCatPre(p, v, h))),
       SumOver(Len(v), LAMBDA i : R(p.bv[i][v[i] + 1])))
RbmCatGrad(p, v) ==
  [i \in 1..Len(v) |-> [k \in 1..Len(p.bv[i]) |->
     RAdd(p.bv[i][k], SumOver(Len(p.bh), LAMBDA h : RMul(Sigmoid(RbmCatPre(p, v, h)), p.w[h][i][k])))]]

LogLik(m, p, x) ==
  CASE m = "bernoulli"   -> BernLL(p, x)
    [] m = "categorical" -> CatLL(p, x)
    [] m = "ising"       -> IsingLL(p, x)
    [] m = "potts"       -> PottsLL(p, x)
    [] m = "fhmm2"       -> FhmmBinLL(p, x)
    [] m = "fhmmK"       -> FhmmCatLL(p, x)
    [] m = "rbm2"        -> RbmBinLL(p, x)
    [] m = "rbmK"        -> RbmCatLL(p, x)
Gradients(m, p, x) ==   \* the acceptable gradients
  CASE m = "bernoulli"   -> << BernGrad(p, x) >>
    [] m = "categorical" -> << CatGrad(p, x) >>
    [] m = "ising"       -> << IsingGrad(p, x) >>
    [] m = "potts"       -> << PottsGrad(p, x) >>
    [] m = "fhmm2"       -> << FhmmBinGrad(p, x) >>
    [] m = "fhmmK"       -> << FhmmCatGrad(p, x, 1), FhmmCatGrad(p, x, 0) >>
    [] m = "rbm2"        -> << RbmBinGrad(p, x) >>
    [] m = "rbmK"        -> << RbmCatGrad(p, x) >>
(* nesting depth of a gradient: sample dimensions plus one for one-hot *)
Depth(m) == CASE m \in {"bernoulli", "rbm2"} -> 1
              [] m \in {"categorical", "rbmK", "ising", "fhmm2"} -> 2
              [] m \in {"potts", "fhmmK"} -> 3
RECURSIVE NearNest(_, _, _, _)
NearNest(d, a, b, tol) ==
  IF d = 0 THEN RClose(a, b, tol, "0.0003")
  ELSE Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearNest(d - 1, a[i], b[i], tol)
=============================================================================
