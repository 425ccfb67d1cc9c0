------------------------------- MODULE Space -------------------------------
(***************************************************************************)
(* The finite sample space {0,..,K-1}^n, enumerated 1..K^n in row-major    *)
(* order (coordinate 1 most significant).  Samples are sequences of        *)
(* category numbers; multi-dimensional samples are flattened row-major.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, RealArith, TLC

RECURSIVE IPow(_, _)
IPow(b, e) == IF e = 0 THEN 1 ELSE b * IPow(b, e - 1)

Card(c) == IPow(c.K, c.n)
Digits(c, s) == [i \in 1..c.n |-> ((s - 1) \div IPow(c.K, c.n - i)) % c.K]
IndexOf(c, x) ==
  LET f[i \in 0..c.n] == IF i = 0 THEN 0 ELSE f[i - 1] * c.K + x[i]
  IN  1 + f[c.n]
(* index of x with coordinate i set to v *)
SetAt(c, x, i, v) == [x EXCEPT ![i] = v]
Hamming(x, y) == Cardinality({i \in DOMAIN x : x[i] # y[i]})
Range1(f) == {f[i] : i \in DOMAIN f}
(* all sequences of length k over S *)
SeqsOf(S, k) == [1..k -> S]
InjSeqs(S, k) == {f \in [1..k -> S] : \A a, b \in 1..k : a # b => f[a] # f[b]}
=============================================================================
