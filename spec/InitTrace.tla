------------------------------ MODULE InitTrace ------------------------------
(* Recorded parameters, initial samples and RBM half-steps of the models.     *)
EXTENDS InitLaws, TraceBase

Plausible(n, N, p) ==
  RLe(RAbs(RSub(n, RMul(N, p))),
      RAdd(RMul("6.5", RSqrt(RMul(N, RMul(p, RMax(0, RSub(1, p)))))),
           RAdd(14, RMul(N, "0.0001"))))
Near(a, b) == RClose(a, b, "0.00002", "0.00002")
KSeq(n, K, q) == [i \in 1..n |-> ((q - 1) \div IPow(K, n - i)) % K]

LatticeClauses(e) ==
  LET nr == Len(e.b)  nc == Len(e.b[1])
      one(v) == IF e.m = "potts" THEN v ELSE <<v>>
      resid == { <<r, c, k>> : r \in 1..nr, c \in 1..nc, k \in 1..Len(one(e.b[1][1])) }
      res(t) == RSub(one(e.b[t[1]][t[2]])[t[3]], FieldMean(e.mu, t[1] - 1, t[2] - 1, nr, nc))
      N == Cardinality(resid)
      bin(q) == Cardinality({t \in resid : /\ RLe(RMul(e.sig, RSub(RDiv(q, 2), 1)), res(t))
                                           /\ RLt(res(t), RMul(e.sig, RSub(RDiv(q + 1, 2), 1)))})
  IN << Clause("params: " \o e.m \o " couplings", \A r \in 1..nr, c \in 1..nc :
          LET h == one(e.wh[r][c])  v == one(e.wv[r][c])
          IN \A k \in 1..Len(h) : Near(h[k], RNeg(e.lam)) /\ Near(v[k], RNeg(e.lam))),
        Clause("params: " \o e.m \o " field range", \A t \in resid :
          RLe(RAbs(res(t)), RAdd(e.sig, "0.0001"))),
        Clause("params: " \o e.m \o " field uniform",
          RLt(0, e.sig) => \A q \in 0..3 : Plausible(bin(q), N, "0.25")),
        (* neighbouring entries of independent fields have equal signs half of the time *)
        Clause("params: " \o e.m \o " field independent",
          RLt(0, e.sig) => \A d \in {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>} :
            LET next(t) == <<t[1] + d[1], t[2] + d[2], t[3] + d[3]>>
                P == {t \in resid : next(t) \in resid}
            IN Plausible(Cardinality({t \in P : RLt(0, res(t)) = RLt(0, res(next(t)))}), Cardinality(P), "0.5")) >>
NormalClauses(e) ==
  << Clause("params: " \o e.m \o " mean",
       RLe(RAbs(e.mean), RMul("6.5", RDiv(e.sig, RSqrt(e.n))))),
     Clause("params: " \o e.m \o " variance",
       RLe(RAbs(RSub(e.var, RPow(e.sig, 2))), RMul(RMul("6.5", RPow(e.sig, 2)), RSqrt(RDiv(2, e.n))))),
     Clause("params: " \o e.m \o " entries independent",
       \A k \in 1..Len(e.pairs) : Plausible(e.pairs[k][2], e.pairs[k][1], "0.5")) >>
(* joint law of small initial samples *)
SampleClauses(e) ==
  << Clause("init: " \o e.m \o " shape and type", e.shape_ok = 1 /\ e.int_ok = 1),
     Clause("init: " \o e.m \o " domain", e.other = 0),
     Clause("init: " \o e.m \o " law", \A q \in 1..IPow(e.K, e.n) :
        LET z == KSeq(e.n, e.K, q)
            p == CASE e.law = "uniform" -> RDiv(1, IPow(e.K, e.n))
                   [] e.law = "product" -> RProd([i \in 1..e.n |-> R(e.pm[i][z[i] + 1])])
                   [] e.law = "cover" -> CoverProb(e.n, e.K, z)
        IN Plausible(e.cnt[q], e.N, p)) >>
RbmClauses(e) ==
  LET p == e.p  nh == Len(p.bh)  nv == Len(p.bv)
  IN << Clause("rbm: hidden given visible", \A i \in 1..Len(e.h) : \A q \in 1..IPow(2, nh) :
           Plausible(e.h[i].cnt[q], e.N, HGivenV(p, e.h[i].v, BitSeq(nh, q)))),
        Clause("rbm: visible given hidden", \A i \in 1..Len(e.v) : \A q \in 1..IPow(2, nv) :
           Plausible(e.v[i].cnt[q], e.N, VGivenH(p, e.v[i].h, BitSeq(nv, q)))),
        Clause("rbm: block Gibbs sweep", \A i \in 1..Len(e.s) : \A q \in 1..IPow(2, nv) :
           Plausible(e.s[i].cnt[q], e.N, RbmSweep(p, e.s[i].v, BitSeq(nv, q)))) >>
ExpClauses(e) ==
  << Clause("params: bernoulli expected value", \A i \in 1..Len(e.th) : RClose(e.mean[i], Sigmoid(e.th[i]), "0.00001", "0.0001")),
     Clause("params: bernoulli variance", \A i \in 1..Len(e.th) :
        RClose(e.var[i], RMul(Sigmoid(e.th[i]), RSub(1, Sigmoid(e.th[i]))), "0.00001", "0.001")) >>
(* hidden paths decoded from nearly noise-free observations *)
FhmmClauses(e) ==
  << Clause("params: fhmm observations are the chains' signal", e.unexplained = 0),
     Clause("params: fhmm initial state", \A k \in 1..Len(e.x0) :
        IF k = 1 THEN Plausible(e.x0[1], e.N0, RSub(1, e.alpha))
        ELSE Len(e.x0) = 2 => Plausible(e.x0[2], e.N0, e.alpha)),
     Clause("params: fhmm initial state follows the drawn law",
        RLe(RAbs(RSub(e.x1obs, e.x1exp)), RAdd(20, RMul("6.5", RSqrt(e.x1exp))))),
     Clause("params: fhmm transitions", \A a \in 1..Len(e.tr) :
        LET tot == RSum(e.tr[a]) IN \A b \in 1..Len(e.tr) :
          Plausible(e.tr[a][b], tot, IF a = b THEN R(e.beta) ELSE RDiv(RSub(1, e.beta), Len(e.tr) - 1))),
     Clause("params: fhmm transitions independent", \A i \in 1..Len(e.both) :
        RLe(RAbs(RSub(e.both[i][1], RMul(e.both[i][2], RPow(e.beta, 2)))),
            RAdd(14, RMul(12, RSqrt(RMul(e.both[i][2], RMul(RPow(e.beta, 2), RSub(1, RPow(e.beta, 2))))))))),
     Clause("params: fhmm initial law normalised", \A i \in 1..Len(e.la) :
        /\ RClose(RSum([k \in 1..Len(e.la[i]) |-> RExp(e.la[i][k])]), "1.0", "0.0001", 0)
        /\ RClose(RExp(e.la[i][1]), RSub(1, e.alpha), "0.0001", 0)),
     Clause("params: fhmm noise level", RClose(e.sd, e.sigma, 0, "0.05")) >>
NetParamClauses(e) ==
  << Clause("params: " \o e.m \o " loaded parameters are returned", e.loaded = 1),
     Clause("params: " \o e.m \o " fresh parameters have the right shapes", e.fresh = 1) >>

Clauses(e) == CASE e.ev = "lattice" -> LatticeClauses(e)
                [] e.ev = "normal" -> NormalClauses(e)
                [] e.ev = "sample" -> SampleClauses(e)
                [] e.ev = "rbm" -> RbmClauses(e)
                [] e.ev = "expval" -> ExpClauses(e)
                [] e.ev = "fhmm" -> FhmmClauses(e)
                [] e.ev = "netparams" -> NetParamClauses(e)
                [] e.ev = "raised" -> << Clause("raised: " \o e.what, FALSE) >>
Init == l = 1 /\ bad = <<>>
Check == l <= Len(Trace) /\ l' = l + 1 /\ Note(Clauses(Trace[l]))
Next == Check \/ WriteVerdict
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
