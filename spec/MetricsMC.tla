------------------------------- MODULE MetricsMC -------------------------------
(* Design: sentences and references are added one by one; the metrics behave as *)
(* their readers assume.                                                        *)
EXTENDS Metrics, TLC
CONSTANTS Words, MaxLen, MaxGen, MaxRef, N, Nodes, Groups
VARIABLES gen, refs
vars == <<gen, refs>>
Sent == UNION {[1..k -> Words] : k \in N..MaxLen}
Init == gen = <<>> /\ refs = <<>>
AddGen == Len(gen) < MaxGen /\ \E s \in Sent : gen' = Append(gen, s) /\ UNCHANGED refs
AddRef == Len(refs) < MaxRef /\ \E s \in Sent : refs' = Append(refs, s) /\ UNCHANGED gen
Spec == Init /\ [][AddGen \/ AddRef]_vars
Unit(v) == RLe(0, v) /\ RLe(v, "1.000000001")
Set(s) == {s[i] : i \in 1..Len(s)}
Ready == gen # <<>> /\ refs # <<>>
Bounded == Ready => /\ Unit(CorpusBleu(gen, refs, N))
                    /\ \A n \in 1..N : Unit(Novel(gen, refs, n)) /\ Unit(Single(gen, n))
                    /\ (Len(gen) > 1 => Unit(SelfBleu(gen, N)))
(* copies of references score 1 and are not novel *)
CopiesAreSeen == Ready /\ Set(gen) \subseteq Set(refs) => REq(CorpusBleu(gen, refs, N), "1.0") /\ \A n \in 1..N : REq(Novel(gen, refs, n), 0)
(* a set of copies of one sentence has self-BLEU 1 and no unique n-gram *)
CopiesAreNotDiverse == Len(gen) > 1 /\ Cardinality(Set(gen)) = 1 => REq(SelfBleu(gen, N), "1.0") /\ \A n \in 1..N : REq(Single(gen, n), 0)
(* nothing in common scores 0 *)
Disjoint == Ready /\ (\A i \in 1..Len(gen), j \in 1..Len(refs) : Set(gen[i]) \cap Set(refs[j]) = {}) => REq(CorpusBleu(gen, refs, N), 0)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == Ready => REq(CorpusBleu(Rev(gen), Rev(refs), N), CorpusBleu(gen, refs, N)) /\ \A n \in 1..N : REq(Novel(Rev(gen), Rev(refs), n), Novel(gen, refs, n))
(* a further reference never hides a match nor makes an n-gram novel *)
MoreRefs == [][refs' # refs => \A n \in 1..N :
    /\ Matched(gen, [i \in 1..Len(gen) |-> refs], n) <= Matched(gen, [i \in 1..Len(gen) |-> refs'], n)
    /\ (gen # <<>> => RLe(Novel(gen, refs', n), Novel(gen, refs, n)))]_vars
(* ---- partitions and windows (independent of the variables) *)
Parts == [1..Nodes -> 0..(Groups - 1)]
Even(g) == \A c, d \in 0..(Groups - 1) : GroupSize(g, c) = GroupSize(g, d)
Edges == {<<u, v>> \in (1..Nodes) \X (1..Nodes) : u < v}
ASSUME \A g \in Parts : /\ RLe(0, Balance(g, Groups)) /\ RLe(Balance(g, Groups), "1.000000001")
                        /\ (Even(g) <=> RClose(Balance(g, Groups), 1, "1e-9", "0"))
                        /\ (REq(Balance(g, Groups), 0) <=> Cardinality(Set(g)) = 1)
ASSUME \A g \in Parts : \A E \in (SUBSET Edges) \ {{}} : RLe(0, CutRatio(E, g)) /\ RLe(CutRatio(E, g), 1) /\ (CutEdges(E, g) = 0 <=> \A e \in E : g[e[1]] = g[e[2]])
ASSUME \A T \in 0..9, size \in 1..4, stride \in 1..4 : LET w == Windows(T, size, stride) IN
   /\ \A k \in 1..Len(w) : w[k] + size <= T /\ w[k] = (k - 1) * stride
   /\ Len(w) * stride + size > T
(* the unbiased variance is unbiased: over two independent draws of a fair coin its mean is 1/4 *)
ASSUME RClose(Avg([k \in 1..4 |-> LET a == (k - 1) % 2 b == (k - 1) \div 2 IN ColVar(<< <<a>>, <<b>> >>, 1)]), "0.25", "1e-12", "0")
=============================================================================
