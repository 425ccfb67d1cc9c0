------------------------------- MODULE Training -------------------------------
(* Training by persistent contrastive divergence: schedules, optimisers, moving *)
(* average, replay buffer, sharded loading.                                      *)
EXTENDS RealArith, Integers, Sequences, FiniteSets
(* ---- learning rate of update t (t = 0, 1, ...) *)
Lin(a, b, n, t) == IF n <= 0 THEN a ELSE RAdd(a, RMul(RSub(b, a), RDiv(IF t > n THEN n ELSE t, n)))
Rate(sched, lr, warm, total, t) ==
  CASE sched = "constant" -> lr
    [] sched = "updown" -> IF t < warm THEN Lin("0.0", lr, warm, t) ELSE Lin(lr, RMul(lr, "0.01"), total - warm, t - warm)
    [] sched = "up_exp_down" -> IF t < warm THEN Lin("0.0", lr, warm, t)
                                ELSE RMax(RMul(lr, RPow("0.9", RDiv(t - warm, 20000))), "1e-6")
(* ---- optimisers on a vector of parameters; m, v moments, n-th update (n = 1, ...) *)
Zeros(k) == [i \in 1..k |-> "0.0"]
Norm(g) == RSqrt(RDot(g, g))
ClipBy(g, c) == IF RLe(c, "0.0") \/ RLt(Norm(g), c) THEN g ELSE [i \in 1..Len(g) |-> RMul(RDiv(g[i], Norm(g)), c)]
Moment1(m, g) == [i \in 1..Len(g) |-> RAdd(RMul("0.9", m[i]), RMul("0.1", g[i]))]
Moment2(v, g) == [i \in 1..Len(g) |-> RAdd(RMul("0.999", v[i]), RMul("0.001", RMul(g[i], g[i])))]
AdamDir(m, v, n) == [i \in 1..Len(m) |->
  RDiv(RDiv(m[i], RSub(1, RPow("0.9", n))), RAdd(RSqrt(RDiv(v[i], RSub(1, RPow("0.999", n)))), "1e-8"))]
(* new parameters; m, v already include the gradient g *)
Updated(opt, w, g, m, v, n, lr, wd) ==
  CASE opt = "sgd" -> [i \in 1..Len(w) |-> RSub(w[i], RMul(lr, g[i]))]
    [] opt = "adam" -> [i \in 1..Len(w) |-> RSub(w[i], RMul(lr, AdamDir(m, v, n)[i]))]
    [] opt = "adamw" -> [i \in 1..Len(w) |-> RSub(w[i], RMul(lr, RAdd(AdamDir(m, v, n)[i], RMul(wd, w[i]))))]
(* ---- moving average; the first step of a fresh training copies *)
Ema(decay, avg, new) == [i \in 1..Len(avg) |-> RAdd(RMul(decay, avg[i]), RMul(RSub(1, decay), new[i]))]
EmaDecay(step, decay) == IF step = 0 THEN "0.0" ELSE decay
(* ---- loss: mean log-likelihood of the negative minus that of the positive samples *)
Energy(w, x) == RAdd(RDot(SubSeq(w, 1, Len(w) - 1), x), w[Len(w)])
Mean(s) == RDiv(RSum(s), Len(s))
MeanEnergy(w, xs) == Mean([i \in 1..Len(xs) |-> Energy(w, xs[i])])
(* gradient of the loss for the linear model (last parameter: the constant) *)
Gradient(pos, neg) ==
  LET D == Len(pos[1])
      mx(xs, i) == Mean([b \in 1..Len(xs) |-> xs[b][i]])
  IN [i \in 1..(D + 1) |-> IF i = D + 1 THEN "0.0" ELSE RSub(mx(neg, i), mx(pos, i))]
(* ---- replay buffer as a bag of rows *)
RECURSIVE Without(_, _), Replace(_, _, _)
Without(s, r) == IF s = <<>> THEN <<>> ELSE IF Head(s) = r THEN Tail(s) ELSE <<Head(s)>> \o Without(Tail(s), r)
In(s, r) == \E i \in 1..Len(s) : s[i] = r
(* every old row is taken out once and its successor put back *)
Replace(s, old, new) == IF old = <<>> THEN s ELSE Replace(Without(s, Head(old)), Tail(old), Tail(new)) \o <<Head(new)>>
RECURSIVE Holds(_, _)
Holds(s, rows) == rows = <<>> \/ (In(s, Head(rows)) /\ Holds(Without(s, Head(rows)), Tail(rows)))
SameBag(s, t) == Len(s) = Len(t) /\ Holds(s, t)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
(* ---- sharded loading: records of one process, cut into device batches *)
OfProcess(data, procs, p) == LET n == (Len(data) - p + procs - 1) \div procs IN [k \in 1..n |-> data[(k - 1) * procs + p + 1]]
Chunks(s, n) == [k \in 1..(Len(s) \div n) |-> SubSeq(s, (k - 1) * n + 1, k * n)]
=============================================================================
