----------------------------- MODULE MathPrimsMC -----------------------------
(* Design: a bag holds w[i] tickets of class i; tickets leave one at a time until *)
(* the bag is empty.  The order in which the classes are first seen is the race   *)
(* that the Gumbel-max / Gumbel-top-k trick runs in continuous time, so counting  *)
(* ticket orders (integers, exact) must give the closed-form laws of MathPrims.   *)
EXTENDS MathPrims
CONSTANTS MaxClasses, MaxTickets
VARIABLES w, left, drawn, firsts, ways
vars == <<w, left, drawn, firsts, ways>>
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
Weights == {x \in UNION {[1..n -> 1..MaxTickets] : n \in 1..MaxClasses} : Total(x) <= MaxTickets}
Init == w \in Weights /\ left = w /\ drawn = <<>> /\ firsts = <<>> /\ ways = 1
Seen(f, i) == \E k \in 1..Len(f) : f[k] = i
Draw(i) == /\ left[i] > 0 /\ left' = [left EXCEPT ![i] = @ - 1] /\ drawn' = Append(drawn, i)
           /\ firsts' = IF Seen(firsts, i) THEN firsts ELSE Append(firsts, i)
           /\ ways' = ways * left[i] /\ w' = w
Next == \E i \in 1..Len(w) : Draw(i)
Spec == Init /\ [][Next]_vars

T(x) == Total(x)
LP(x) == [i \in 1..Len(x) |-> RLog(RDiv(x[i], T(x)))]
Same(a, b) == RClose(a, b, "1e-9", "1e-9")
(* number of ways to empty the bag l after which the classes were first seen in the order f, given that g were seen *)
RECURSIVE Orders(_, _, _)
Prefix(g, f) == \A k \in 1..Len(g) : k <= Len(f) => g[k] = f[k]
Orders(l, g, f) == IF ~Prefix(g, f) THEN 0
                   ELSE IF T(l) = 0 THEN (IF Len(g) >= Len(f) THEN 1 ELSE 0)
                   ELSE LET s == SetToSeq({i \in 1..Len(l) : l[i] > 0})
                        IN Total([k \in 1..Len(s) |-> l[s[k]] * Orders([l EXCEPT ![s[k]] = @ - 1], IF Seen(g, s[k]) THEN g ELSE Append(g, s[k]), f)])
Distinct(f) == \A a, b \in 1..Len(f) : a # b => f[a] # f[b]
Start == drawn = <<>>
(* every prefix of the order of first appearance has the sequential law *)
TopKLaw == Start => \A L \in 1..Len(w) : \A f \in SeqsOf(1..Len(w), L) :
             Same(SeqProb(LP(w), f, FALSE), RDiv(IF Distinct(f) THEN Orders(w, <<>>, f) ELSE 0, Fact(T(w))))
SumsToOne == Start => \A L \in 1..Len(w), r \in BOOLEAN :
             LET fs == SetToSeq(SeqsOf(1..Len(w), L)) IN Same(RSum([k \in 1..Len(fs) |-> SeqProb(LP(w), fs[k], r)]), 1)
(* with replacement the counts are multinomial; without, each class at most once *)
Multinomial(L, v) == RMul(Fact(L), RProd([i \in 1..Len(v) |-> RDiv(RPow(RDiv(w[i], T(w)), v[i]), Fact(v[i]))]))
CountLaw == Start => \A L \in 1..3 : \A v \in {x \in [1..Len(w) -> 0..L] : T(x) = L} :
             /\ Same(CountProb(LP(w), L, v, TRUE), Multinomial(L, v))
             /\ (\E i \in 1..Len(w) : v[i] > 1) => Same(CountProb(LP(w), L, v, FALSE), 0)
(* without replacement, the chance of a set does not depend on which member is counted last: inclusion of all when L = C *)
AllDrawn == Start => Same(CountProb(LP(w), Len(w), [i \in 1..Len(w) |-> 1], FALSE), 1)
(* per-position terms add up to the law of the draw *)
Positions == (firsts # <<>>) => Same(RSum(PosLL(LP(w), firsts, FALSE)), RLog(SeqProb(LP(w), firsts, FALSE)))
WithRepl == (drawn # <<>>) => Same(RExp(RSum(PosLL(LP(w), drawn, TRUE))), SeqProb(LP(w), drawn, TRUE))
(* the chance of the drawn ticket order is the ratio of its ways to all orders of that length *)
Conserved == /\ T(left) + Len(drawn) = T(w) /\ Len(firsts) <= Len(w) /\ Distinct(firsts)
             /\ CountVec(Len(w), drawn) = [i \in 1..Len(w) |-> w[i] - left[i]]
             /\ ways * ProdSeq([i \in 1..Len(w) |-> Fact(left[i])]) = ProdSeq([i \in 1..Len(w) |-> Fact(w[i])])
Pascal == Start => \A n \in 0..MaxTickets : /\ Total([r \in 1..(n + 1) |-> Choose(n, r - 1)]) = 2 ^ n
             /\ \A r \in 0..n : Choose(n, r) * Fact(r) * Fact(n - r) = Fact(n)
Done == T(left) = 0 => Len(firsts) = Len(w)
=============================================================================
