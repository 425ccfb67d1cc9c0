---------------------------- MODULE EnergiesMC ----------------------------
(***************************************************************************)
(* Design check of Energies: over all small samples and parameters drawn   *)
(* from Vals by a linear congruential walk, the energies have the defining *)
(* properties of their models.  One state per (model, parameters, sample). *)
(***************************************************************************)
EXTENDS Energies, TLC
CONSTANTS NSeeds
VARIABLES m, s, x
vars == <<m, s, x>>
V(seed, i) == RDiv(((seed * 37 + i * 101 + (i * i) * 17) % 41) - 20, 10)
Vec(sd, o, n) == [i \in 1..n |-> V(sd, o + i)]
Mat(sd, o, r, c) == [i \in 1..r |-> Vec(sd, o + 10 * i, c)]
Ten(sd, o, r, c, k) == [i \in 1..r |-> Mat(sd, o + 40 * i, c, k)]
Grid(r, c, K) == [1..r -> [1..c -> 0..(K - 1)]]
Xs(mm) == CASE mm = "bernoulli" -> [1..3 -> 0..1]
            [] mm = "categorical" -> [1..2 -> 0..2]
            [] mm = "ising" -> Grid(2, 3, 2)
            [] mm = "potts" -> Grid(2, 2, 3)
            [] mm = "fhmm2" -> Grid(3, 2, 2)
            [] mm = "fhmmK" -> Grid(2, 2, 3)
            [] mm = "rbm2" -> [1..3 -> 0..1]
            [] mm = "rbmK" -> [1..2 -> 0..2]
LogNorm(v) == [i \in 1..Len(v) |-> RSub(v[i], RLogSumExp(v))]
P(mm, sd) ==
  CASE mm = "bernoulli" -> [th |-> Vec(sd, 0, 3)]
    [] mm = "categorical" -> [th |-> Mat(sd, 0, 2, 3)]
    [] mm = "ising" -> [wh |-> Mat(sd, 0, 2, 3), wv |-> Mat(sd, 100, 2, 3), b |-> Mat(sd, 200, 2, 3)]
    [] mm = "potts" -> [wh |-> Ten(sd, 0, 2, 2, 3), wv |-> Ten(sd, 100, 2, 2, 3), b |-> Ten(sd, 200, 2, 2, 3)]
    [] mm = "fhmm2" -> [alpha |-> "0.3", beta |-> "0.8", sigma |-> "1.5", w |-> Vec(sd, 0, 2), b |-> V(sd, 5), y |-> Vec(sd, 10, 3)]
    [] mm = "fhmmK" -> [la |-> LogNorm(Vec(sd, 50, 3)), ncat |-> 3, beta |-> "0.7", sigma |-> "1.5", w |-> Mat(sd, 0, 2, 3), b |-> V(sd, 5), y |-> Vec(sd, 10, 2)]
    [] mm = "rbm2" -> [w |-> Mat(sd, 0, 3, 2), bv |-> Vec(sd, 50, 3), bh |-> Vec(sd, 60, 2)]
    [] mm = "rbmK" -> [w |-> Ten(sd, 0, 2, 2, 3), bv |-> Mat(sd, 150, 2, 3), bh |-> Vec(sd, 60, 2)]
Models == {"bernoulli", "categorical", "ising", "potts", "fhmm2", "fhmmK", "rbm2", "rbmK"}
(* a single-site move; site <<r, c>>, or <<i>> for vectors *)
Flat == m \in {"bernoulli", "categorical", "rbm2", "rbmK"}
Sites == IF Flat THEN {<<i>> : i \in 1..Len(x)} ELSE (1..Len(x)) \X (1..Len(x[1]))
At(z, q) == IF Flat THEN z[q[1]] ELSE z[q[1]][q[2]]
Put(z, q, v) == IF Flat THEN [z EXCEPT ![q[1]] = v] ELSE [z EXCEPT ![q[1]][q[2]] = v]
Cats == IF m \in {"bernoulli", "ising", "fhmm2", "rbm2"} THEN 0..1 ELSE 0..2

Init == m \in Models /\ s \in 1..NSeeds /\ x = (CHOOSE z \in Xs(m) : TRUE)
Next == \E q \in Sites, v \in Cats : x' = Put(x, q, v) /\ UNCHANGED <<m, s>>
Spec == Init /\ [][Next]_vars

p == P(m, s)
Eq(a, b) == RClose(a, b, "1e-9", "1e-9")
(* multilinear models: the gradient is the exact single-site difference *)
GradDiff ==
  m \in {"bernoulli", "ising", "categorical", "potts"} =>
  \A q \in Sites, v \in Cats :
    LET g == Gradients(m, p, x)[1]
        d == RSub(LogLik(m, p, Put(x, q, v)), LogLik(m, p, x))
    IN Eq(d, CASE m = "bernoulli" -> RMul(v - At(x, q), g[q[1]])
               [] m = "ising" -> RMul(v - At(x, q), g[q[1]][q[2]])
               [] m = "categorical" -> RSub(g[q[1]][v + 1], g[q[1]][At(x, q) + 1])
               [] m = "potts" -> RSub(g[q[1]][q[2]][v + 1], g[q[1]][q[2]][At(x, q) + 1]))
(* FHMM: difference = gradient step + second-order term of the Gaussian *)
FhmmDiff ==
  m = "fhmm2" => \A q \in Sites :
    LET v == 1 - At(x, q)
        d == RSub(LogLik(m, p, Put(x, q, v)), LogLik(m, p, x))
    IN Eq(d, RSub(RMul(v - At(x, q), Gradients(m, p, x)[1][q[1]][q[2]]),
                  RDiv(RPow(p.w[q[2]], 2), RMul(2, RPow(p.sigma, 2)))))
FhmmDiffK ==
  m = "fhmmK" => \A q \in Sites, v \in Cats :
    LET d == RSub(LogLik(m, p, Put(x, q, v)), LogLik(m, p, x))
        g == FhmmCatGrad(p, x, 0)[q[1]][q[2]]
        dw == RSub(p.w[q[2]][v + 1], p.w[q[2]][At(x, q) + 1])
    IN Eq(d, RSub(RSub(g[v + 1], g[At(x, q) + 1]), RDiv(RPow(dw, 2), RMul(2, RPow(p.sigma, 2)))))
(* the RBM log-likelihood marginalises the joint over hidden units *)
Hs == [1..2 -> 0..1]
AllH == << <<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>> >>
RbmMarginal ==
  m = "rbm2" => /\ Eq(LogLik(m, p, x), RLogSumExp([i \in 1..4 |-> RbmBinJoint(p, x, AllH[i])]))
                /\ \A hh \in Hs, i \in 1..3 :   \* conditional log-odds of a visible unit
                     Eq(RSub(RbmBinJoint(p, [x EXCEPT ![i] = 1], hh), RbmBinJoint(p, [x EXCEPT ![i] = 0], hh)),
                        RbmBinPreV(p, hh, i))
(* the RBM free energy is convex along each site: the gradient at the end points brackets the difference *)
RbmBracket ==
  m = "rbm2" => \A i \in 1..3 :
    LET x0 == [x EXCEPT ![i] = 0]  x1 == [x EXCEPT ![i] = 1]
        d == RSub(LogLik(m, p, x1), LogLik(m, p, x0))
    IN /\ RLe(RSub(RbmBinGrad(p, x0)[i], "1e-9"), d)
       /\ RLe(d, RAdd(RbmBinGrad(p, x1)[i], "1e-9"))
(* the hidden chains' prior is a probability law *)
PriorNorm ==
  /\ m = "fhmm2" => Eq("1.0", RAdd(RExp(LB(p.alpha, 0)), RExp(LB(p.alpha, 1))))
  /\ m = "fhmmK" => /\ Eq("1.0", RSum([k \in 1..3 |-> RExp(p.la[k])]))
                    /\ \A a \in 0..2 : Eq("1.0", RSum([b \in 1..3 |-> RExp(LogTrans(p, a, b - 1))]))
(* with K = 2 the categorical FHMM is the binary one *)
FhmmAgree ==
  m = "fhmm2" =>
    Eq(LogLik("fhmm2", p, x),
       FhmmCatLL([la |-> <<LB(p.alpha, 0), LB(p.alpha, 1)>>, ncat |-> 2, beta |-> p.beta, sigma |-> p.sigma,
                  w |-> [j \in 1..Len(p.w) |-> <<"0.0", p.w[j]>>], b |-> p.b, y |-> p.y], x))
(* without field the Ising energy is symmetric under a global flip *)
IsingSym ==
  m = "ising" =>
    LET p0 == [p EXCEPT !.b = [r \in 1..2 |-> [c \in 1..3 |-> "0.0"]]]
    IN Eq(LogLik(m, p0, x), LogLik(m, p0, [r \in 1..2 |-> [c \in 1..3 |-> 1 - x[r][c]]]))
=============================================================================
