------------------------------ MODULE MetricsTrace ------------------------------
(* Recorded results of the evaluators.                                           *)
EXTENDS Metrics, TraceBase
Near(a, b) == RClose(a, b, "1e-6", "1e-5")
Near32(a, b) == RClose(a, b, "2e-5", "5e-4")
(* tokens of a reference corpus, lower-cased; quotes and unknown words normalised *)
TbcTok(t) == IF t = "``" \/ t = "''" THEN "\"" ELSE t
WikiTok(t) == IF t = "@@unknown@@" THEN "[UNK]" ELSE t
Map(F(_), ss) == [i \in 1..Len(ss) |-> [j \in 1..Len(ss[i]) |-> F(ss[i][j])]]
LmClauses(e) ==
  LET tbc == Map(TbcTok, e.tbc)
      wiki == Map(WikiTok, e.wiki)
      r == e.res
  IN << Clause("lm: BLEU against the book corpus", Near(r.tbc_bleu, CorpusBleu(e.gen, tbc, 4))),
        Clause("lm: BLEU against the wiki corpus", Near(r.wiki_bleu, CorpusBleu(e.gen, wiki, 4))),
        Clause("lm: BLEU against both corpora", Near(r.tbc_wiki_bleu, CorpusBleu(e.gen, tbc \o wiki, 4))),
        Clause("lm: self-BLEU of more than one sentence", IF Len(e.gen) > 1 THEN e.hasself /\ Near(r.self_bleu, SelfBleu(e.gen, 4)) ELSE TRUE),
        Clause("lm: share of n-grams new to the wiki corpus", Len(e.nwiki) = e.maxn /\ \A n \in 1..e.maxn : Near(e.nwiki[n], Novel(e.gen, wiki, n))),
        Clause("lm: share of n-grams new to the book corpus", Len(e.ntbc) = e.maxn /\ \A n \in 1..e.maxn : Near(e.ntbc[n], Novel(e.gen, tbc, n))),
        Clause("lm: share of n-grams generated once", Len(e.nself) = e.maxn /\ \A n \in 1..e.maxn : Near(e.nself[n], Single(e.gen, n))),
        Clause("lm: the sentences are kept", e.kept) >>
(* e.xs[t][b][i], e.p[i], e.got: avg/max mean error, avg/max variance error over chains; avg mean and variance error over last states *)
BernClauses(e) ==
  LET me == ChainErrs(e.xs, e.p, MeanErr)
      ve == ChainErrs(e.xs, e.p, VarErr)
      last == e.xs[Len(e.xs)]
  IN << Clause("bernoulli: mean error of the chains", Near32(e.got[1], Avg(me)) /\ Near32(e.got[2], RMaxSeq(me))),
        Clause("bernoulli: variance error of the chains", Near32(e.got[3], Avg(ve)) /\ Near32(e.got[4], RMaxSeq(ve))),
        Clause("bernoulli: errors of the last states over the chains", Near32(e.got[5], Avg(MeanErr(last, e.p))) /\ Near32(e.got[6], Avg(VarErr(last, e.p)))) >>
(* e.curves[k] the errors drawn for run k: e.runs[k] [xs, p] *)
CurveClauses(e) ==
  << Clause("bernoulli: one curve per run", Len(e.curves) = Len(e.runs)),
     Clause("bernoulli: the curve holds the mean error of every full window", \A k \in 1..Len(e.curves) :
        LET xs == e.runs[k].xs
            w == Windows(Len(xs), e.size, e.stride)
        IN /\ Len(e.curves[k]) = Len(w)
           /\ \A i \in 1..Len(w) : Near32(e.curves[k][i], Avg(ChainErrs(SubSeq(xs, w[i] + 1, w[i] + e.size), e.runs[k].p, MeanErr)))) >>
(* e.rows[k] [name, edges, groups, K, cut, bal]: one per result folder *)
PartClauses(e) ==
  << Clause("partition: one row per result", Len(e.rows) = e.n),
     Clause("partition: cut ratio and balance of the best solution", \A k \in 1..Len(e.rows) :
        LET r == e.rows[k]
            E == {<<r.edges[i][1] + 1, r.edges[i][2] + 1>> : i \in 1..Len(r.edges)}
        IN Near(r.cut, CutRatio(E, r.groups)) /\ Near(r.bal, Balance(r.groups, r.K))) >>
Clauses(e) == CASE e.ev = "lm" -> LmClauses(e) [] e.ev = "bern" -> BernClauses(e) [] e.ev = "curve" -> CurveClauses(e) [] e.ev = "part" -> PartClauses(e)
                [] e.ev = "raised" -> << Clause("raised: " \o e.what, FALSE) >>
Init == l = 1 /\ bad = <<>>
Check == l <= Len(Trace) /\ l' = l + 1 /\ Note(Clauses(Trace[l]))
Next == Check \/ WriteVerdict
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
