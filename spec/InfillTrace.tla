------------------------------- MODULE InfillTrace -------------------------------
(* Recorded task sets, energies, initial samples and runs of text infilling.      *)
EXTENDS Infill, TraceBase
Near(a, b) == RClose(a, b, "2e-3", "2e-4")
Els(s) == {s[i] : i \in 1..Len(s)}
Ids(s) == {s[i].id : i \in 1..Len(s)}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Min2(a, b) == IF a < b THEN a ELSE b
(* ---- task set: e.lines (both corpora) [id, src, words (cleaned)];           *)
(* e.tasks [id, words, masked, pos, tokens]; e.refs[src] sequence of line ids  *)
TaskClauses(e) ==
  LET src(k) == SelectSeq(e.lines, LAMBDA r : r.src = k)
      fit(k) == SelectSeq(src(k), LAMBDA r : Fits(e, r))
      got(k) == SelectSeq(e.tasks, LAMBDA t : t.src = k)
      n1 == Min2(e.quota, Len(fit(1)))
  IN << Clause("tasks: number of sentences of each corpus", Len(got(1)) = n1 /\ Len(got(2)) = Min2(2 * e.quota - n1, Len(fit(2)))
                                                            /\ Len(e.tasks) = Len(got(1)) + Len(got(2))),
        Clause("tasks: length within bounds", \A i \in 1..Len(e.tasks) : Fits(e, e.tasks[i])),
        Clause("tasks: a sentence is a task or a reference, never both", \A k \in 1..2 :
            /\ Ids(got(k)) \cap Els(e.refs[k]) = {} /\ Ids(got(k)) \cup Els(e.refs[k]) = Ids(src(k))
            /\ Len(got(k)) + Len(e.refs[k]) = Len(src(k))),
        Clause("tasks: the chosen words and only they are masked, never the first or last", \A i \in 1..Len(e.tasks) : LET t == e.tasks[i] IN
            /\ Len(t.words) = Len(t.masked)
            /\ LET P == MaskedAt(t.words, t.masked) IN
               Cardinality(P) = e.masks /\ \A p \in P : t.masked[p] = "[MASK]" /\ p # 1 /\ p # Len(t.words)),
        Clause("tasks: positions are those of the masks in the tokenised sentence", \A i \in 1..Len(e.tasks) : LET t == e.tasks[i] IN
            /\ Els(t.pos) = {p - 1 : p \in {p \in 1..Len(t.tokens) : t.tokens[p] = "[MASK]"}}
            /\ Len(t.pos) = e.masks /\ \A j \in 1..(Len(t.pos) - 1) : t.pos[j] < t.pos[j + 1]) >>
(* ---- energy: e.rows [lp (log-probability of each infilled token given the   *)
(* sentence with that token masked, from the stock network), vals, dir]        *)
EnergyClauses(e) ==
  << Clause("energy: sum of the masked log-probabilities of the infilled tokens",
        \A i \in 1..Len(e.rows) : \A k \in 1..Len(e.rows[i].vals) : Near(e.rows[i].vals[k], RSum(e.rows[i].lp))),
     Clause("energy: gradient is the derivative", \A i \in 1..Len(e.rows) : \A k \in 1..Len(e.rows[i].dir) :
        RClose(e.rows[i].dir[k][1], e.rows[i].dir[k][2], "3e-2", "3e-2")),
     Clause("decode: the sentence with the sampled tokens in place", e.decoded = e.wanted) >>
(* ---- initial samples: binned law of each position *)
InitClauses(e) ==
  << Clause("init: integer tokens, one per position", e.domain),
     Clause("init: law of the initial tokens", \A p \in 1..Len(e.freq) : \A b \in 1..Len(e.freq[p]) :
        LET pr == e.prob[p][b]
            sd == RSqrt(RDiv(RMul(pr, RSub(1, pr)), e.n))
        IN RLe(RAbs(RSub(RDiv(e.freq[p][b], e.n), pr)), RAdd(RMul("5.5", sd), "1e-4"))) >>
(* ---- run: e.runs[m][r] resample r of sentence m: steps, text, ll            *)
RunClauses(e) ==
  LET full == /\ Len(e.runs) = e.M /\ \A m \in 1..e.M : Len(e.runs[m]) = e.R
              /\ \A m \in 1..e.M : \A r \in 1..e.R : Len(e.runs[m][r].steps) = e.L
      cells == (1..e.M) \X (1..e.R)
      text(k) == e.runs[((k - 1) \div e.R) + 1][((k - 1) % e.R) + 1].text
  IN << Clause("infill: every sentence is sampled the requested number of times for chain_length steps", full) >> \o
     IF ~full THEN <<>> ELSE
     << Clause("infill: each step continues the last, from the initial sample of the sentence", \A q \in cells :
          LET s == e.runs[q[1]][q[2]].steps IN s[1].x = e.inits[q[1]] /\ \A i \in 2..e.L : s[i].x = s[i - 1].y),
        Clause("infill: fresh randomness throughout", Cardinality({e.runs[t[1]][t[2]].steps[t[3]].key : t \in (1..e.M) \X (1..e.R) \X (1..e.L)}) = e.M * e.R * e.L),
        Clause("infill: every sampled sentence is evaluated", Len(e.sents) = e.M * e.R /\ \A k \in 1..Len(e.sents) : e.sents[k] = text(k)),
        Clause("infill: results saved as evaluated", e.saved = e.evaluated /\ e.nsaves = 1),
        Clause("infill: the likeliest samples of every sentence are evaluated apart",
          IF ~e.topk THEN e.tops = <<>> /\ e.savedtop = <<>>
          ELSE LET k == Min2(e.k, e.R) IN
            /\ Len(e.tops) = e.M * k
            /\ \A m \in 1..e.M :
                 LET top == [i \in 1..k |-> e.tops[(m - 1) * k + i]]
                     txt == [r \in 1..e.R |-> e.runs[m][r].text]
                     ll == [r \in 1..e.R |-> e.runs[m][r].ll]
                     low(r) == \A q \in 1..e.R : txt[q] \in Els(top) => RLe(ll[r], ll[q])
                 IN /\ \A r \in 1..e.R : Count(top, txt[r]) = Count(txt, txt[r]) \/ low(r)
                    /\ \A i \in 1..k : Count(top, top[i]) <= Count(txt, top[i])
            /\ e.savedtop = e.evaltop) >>
Clauses(e) == CASE e.ev = "task" -> TaskClauses(e) [] e.ev = "energy" -> EnergyClauses(e) [] e.ev = "init" -> InitClauses(e)
                [] e.ev = "run" -> RunClauses(e)
                [] e.ev = "raised" -> << Clause("raised: " \o e.what, FALSE) >>
Init == l = 1 /\ bad = <<>>
Check == l <= Len(Trace) /\ l' = l + 1 /\ Note(Clauses(Trace[l]))
Next == Check \/ WriteVerdict
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
