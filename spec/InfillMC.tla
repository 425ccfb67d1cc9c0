-------------------------------- MODULE InfillMC --------------------------------
(* Design: scanning the lines of two corpora in any order.                     *)
EXTENDS Infill, TLC
CONSTANTS Lengths1, Lengths2, Quota, Lo, Hi
VARIABLES left1, left2, st1, st2
vars == <<left1, left2, st1, st2>>
c == [min |-> Lo, max |-> Hi]
Line(ls, i) == [id |-> i, words |-> [k \in 1..ls[i] |-> "w"]]
L1 == Lengths1
L2 == Lengths2
Init == left1 = 1..Len(L1) /\ left2 = 1..Len(L2) /\ st1 = [n |-> 0, task |-> <<>>, ref |-> <<>>] /\ st2 = [n |-> 0, task |-> <<>>, ref |-> <<>>]
First == \E i \in left1 : left1' = left1 \ {i} /\ st1' = Scan(c, Quota, st1, Line(L1, i)) /\ UNCHANGED <<left2, st2>>
Second == left1 = {} /\ \E i \in left2 : left2' = left2 \ {i}
            /\ st2' = [Scan(c, 2 * Quota, [st2 EXCEPT !.n = st1.n + Len(st2.task)], Line(L2, i)) EXCEPT !.n = 0] /\ UNCHANGED <<left1, st1>>
Next == First \/ Second
Spec == Init /\ [][Next]_vars
Els(s) == {s[i] : i \in 1..Len(s)}
FitSet(ls) == {i \in 1..Len(ls) : Fits(c, Line(ls, i))}
Partition == /\ Els(st1.task) \cup Els(st1.ref) = (1..Len(L1)) \ left1 /\ Els(st1.task) \cap Els(st1.ref) = {}
             /\ Len(st1.task) + Len(st1.ref) = Len(L1) - Cardinality(left1)
             /\ Els(st2.task) \cup Els(st2.ref) = (1..Len(L2)) \ left2 /\ Els(st2.task) \cap Els(st2.ref) = {}
Min2(a, b) == IF a < b THEN a ELSE b
Counts == (left1 = {} /\ left2 = {}) =>
   /\ Len(st1.task) = Min2(Quota, Cardinality(FitSet(L1)))
   /\ Len(st2.task) = Min2(2 * Quota - Len(st1.task), Cardinality(FitSet(L2)))
Bounds == Els(st1.task) \subseteq FitSet(L1) /\ Els(st2.task) \subseteq FitSet(L2)
(* selection of the likeliest is unique up to ties *)
Sel == \A v \in [1..4 -> {0, 1, 2}] : \A k \in 1..5 :
  LET T == {S \in SUBSET (1..4) : IsTopK(v, k, S)}
  IN /\ T # {}
     /\ \A S1, S2 \in T : \A x \in {0, 1, 2} : Cardinality({i \in S1 : v[i] = x}) = Cardinality({i \in S2 : v[i] = x})
SelOnce == left1 = 1..Len(L1) => Sel
MC1 == <<1, 2, 3, 3, 4>>
MC2 == <<2, 5, 3, 1>>
=============================================================================
