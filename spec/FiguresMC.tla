------------------------------- MODULE FiguresMC -------------------------------
(* Design: the script reads the runs tick by tick and appends to one list per  *)
(* sampler; the list is drawn over the ticks.  Runs may be unfinished.  With   *)
(* `SkipMissing' unfinished runs are left out and the list is filled up with   *)
(* zeros at its end, as the script once did: SkipIsSeen shows that the clauses *)
(* reject what it then draws.                                                  *)
EXTENDS Figures, TLC
CONSTANTS Samplers, NTicks
VARIABLES done, order, pos, lists, short
vars == <<done, order, pos, lists, short>>
NS == Cardinality(Samplers)
Perms == {p \in [1..NS -> Samplers] : \A i, j \in 1..NS : p[i] = p[j] => i = j}
Val(s, t) == ToString(10 * t + (CHOOSE k \in 1..NS : (CHOOSE q \in Perms : TRUE)[k] = s))
Cfg(s) == [name |-> s, solver |-> "", balancing |-> "", adaptive |-> "", step_size |-> "", n |-> "", num_flips |-> ""]
Init == /\ done \in SUBSET (Samplers \X (1..NTicks))
        /\ order \in [1..NTicks -> Perms]        \* reading order within a tick
        /\ pos = 0 /\ lists = [s \in Samplers |-> <<>>] /\ short = [s \in Samplers |-> <<>>]
Read == /\ pos < NTicks * NS /\ pos' = pos + 1
        /\ LET t == (pos \div NS) + 1 IN LET s == order[t][(pos % NS) + 1] IN
           /\ lists' = [lists EXCEPT ![s] = Append(@, IF <<s, t>> \in done THEN Val(s, t) ELSE "0")]
           /\ short' = [short EXCEPT ![s] = IF <<s, t>> \in done THEN Append(@, Val(s, t)) ELSE @]
        /\ UNCHANGED <<done, order>>
Spec == Init /\ [][Read]_vars
RunOf(st) == [cfg |-> Cfg(st[1]), group |-> "g", tick |-> ToString(st[2]), done |-> st \in done, vals |-> [ess |-> <<Val(st[1], st[2]), "1">>]]
RunSeq == LET q == [i \in 1..NS * NTicks |-> <<(CHOOSE p \in Perms : TRUE)[((i - 1) % NS) + 1], ((i - 1) \div NS) + 1>>] IN [i \in 1..NS * NTicks |-> RunOf(q[i])]
Pad(v) == v \o [i \in 1..NTicks - Len(v) |-> "0"]
(* the bars over the ticks *)
Draw(ls) ==
  LET p == CHOOSE p \in Perms : TRUE IN
  [group |-> "g", res |-> "ess", ticks |-> [t \in 1..NTicks |-> [x |-> RMul(t - 1, RMul("0.5", NS + 2)), label |-> ToString(t)]],
   bars |-> [i \in 1..NS * NTicks |->
     LET k == ((i - 1) % NS) + 1 IN LET t == ((i - 1) \div NS) + 1 IN LET h == Pad(ls[p[k]])[t] IN
     [label |-> TableName(Cfg(p[k])), x |-> RAdd(RMul(t - 1, RMul("0.5", NS + 2)), RMul("0.5", RSub(RAdd(k - 1, "0.5"), RDiv(NS, 2)))), w |-> "0.5", h |-> h,
      err |-> IF h = "0" THEN "0" ELSE "1"]]]
End == pos = NTicks * NS
InPlace == \A s \in Samplers : \A k \in 1..Len(lists[s]) : lists[s][k] = IF <<s, k>> \in done THEN Val(s, k) ELSE "0"
FigureOk == End => BarsOk(Draw(lists), RunSeq, "m", "key")
Shifted == \E s \in Samplers : \E t, u \in 1..NTicks : t < u /\ <<s, t>> \notin done /\ <<s, u>> \in done
SkipIsSeen == End => (Shifted <=> ~BarsOk(Draw(short), RunSeq, "m", "key"))
(* grids: every pixel of every image is in the grid once *)
Imgs(n, h, w) == [k \in 1..n |-> [i \in 1..h |-> [j \in 1..w |-> <<k * 100 + i * 10 + j>>]]]
Grid(n, h, w, p, c) == [n |-> n, h |-> h, w |-> w, c |-> 1, pad |-> p, val |-> 0, cols |-> c, imgs |-> Imgs(n, h, w)]
Laid(g) == [y \in 1..GridRows(g) * (g.h + 2 * g.pad) - 2 * g.pad |-> [x \in 1..GridCols(g) * (g.w + 2 * g.pad) - 2 * g.pad |-> <<Pixel(g, y - 1, x - 1, 1)>>]]
ASSUME \A n \in 1..5 : \A h, w \in 1..2 : \A p \in 0..2 : \A c \in {0} \cup {d \in 1..n : n % d = 0} :
  LET g == Grid(n, h, w, p, c) IN LET q == Laid(g) IN
  /\ GridOk(g, q)
  /\ \A k \in 1..n : \A i \in 1..h : \A j \in 1..w : Cardinality({yx \in {<<y, x>> : y \in 1..Len(q), x \in 1..Len(q[1])} : q[yx[1]][yx[2]] = g.imgs[k][i][j]}) = 1
=============================================================================
