------------------------------- MODULE TrainingMC -------------------------------
(* Design of the training loop: batches are consumed once, in order; negative    *)
(* samples live in a buffer whose rows are replaced only by their own successors;*)
(* the moving average stays between the parameters it averages.                  *)
EXTENDS Training, TLC
CONSTANTS Steps, Rows, Size, Batch, Decay, LR
VARIABLES step, w, ema, buffer, lineage, used, hist
vars == <<step, w, ema, buffer, lineage, used, hist>>
Vals == Rows
Init == /\ step = 0 /\ w = <<"0.5", "0.0">> /\ ema = w
        /\ buffer \in [1..Size -> {<<r>> : r \in Vals}]
        /\ lineage = [i \in 1..Size |-> 0] /\ used = 0 /\ hist = <<w>>
Step == /\ step < Steps
        /\ \E S \in SUBSET (1..Size) : Cardinality(S) = Batch /\
           \E y \in [S -> {<<r>> : r \in Vals}], pos \in [1..Batch -> {<<r>> : r \in Vals}] :
             LET idx == CHOOSE f \in [1..Batch -> S] : \A i, j \in 1..Batch : i < j => f[i] < f[j]
                 neg == [i \in 1..Batch |-> y[idx[i]]]
                 g == Gradient(pos, neg)
                 nw == Updated("sgd", w, g, <<>>, <<>>, step + 1, LR, "0.0")
             IN /\ w' = nw /\ ema' = Ema(EmaDecay(step, Decay), ema, nw)
                /\ buffer' = [i \in 1..Size |-> IF i \in S THEN y[i] ELSE buffer[i]]
                /\ lineage' = [i \in 1..Size |-> IF i \in S THEN lineage[i] + 1 ELSE lineage[i]]
                /\ hist' = Append(hist, nw)
                (* the bag view agrees with the indexed view *)
                /\ Assert(Holds(buffer, [i \in 1..Batch |-> buffer[idx[i]]]), "rows come from the buffer")
                /\ Assert(SameBag(buffer', Replace(buffer, [i \in 1..Batch |-> buffer[idx[i]]], neg)), "bag")
        /\ step' = step + 1 /\ used' = used + 1
Spec == Init /\ [][Step]_vars
Consumed == used = step /\ Len(hist) = step + 1
BufferSize == Len(buffer) = Size
RECURSIVE SumF(_, _)
SumF(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumF(f, n - 1)
Persistent == SumF(lineage, Size) = Batch * step
EmaBetween == step >= 1 => LET vs == {hist[i][1] : i \in 2..Len(hist)} IN
   (\E v \in vs : RLe(v, RAdd(ema[1], "1e-9"))) /\ (\E v \in vs : RLe(ema[1], RAdd(v, "1e-9")))
FirstCopies == step = 1 => REq(ema[1], w[1])
ConstantIgnored == REq(w[2], "0.0")
(* descending the loss: the parameter moves against the mean difference *)
Descends == [][LET n == Len(hist') IN RClose(RSub(hist'[n][1], hist'[n - 1][1]), RSub(w'[1], w[1]), "1e-12", "0")]_vars
(* schedules, for all small settings *)
ASSUME \A sc \in {"constant", "updown", "up_exp_down"}, warm \in 0..4, total \in 4..8, t \in 0..10 :
   LET r == Rate(sc, LR, warm, total, t) IN
   /\ RLe("0.0", r) /\ RLe(r, RMul(LR, "1.000000001"))
   /\ (t = warm => RClose(r, LR, "1e-12", "0"))
   /\ (t >= warm => RLe(Rate(sc, LR, warm, total, t + 1), r))
   /\ (t < warm /\ sc # "constant" => RLt(r, LR))
   /\ (sc = "updown" /\ t >= total /\ total > warm => RClose(r, RMul(LR, "0.01"), "1e-12", "1e-9"))
ASSUME \A c \in {"0.5", "2.0"}, a \in {"0.3", "-1.0", "3.0"}, b \in {"0.0", "4.0"} : LET g == ClipBy(<<a, b>>, c) IN
   /\ RLe(Norm(g), RMul(c, "1.000001")) /\ RClose(RMul(g[1], b), RMul(g[2], a), "1e-9", "1e-9")
   /\ (RLt(Norm(<<a, b>>), c) => g = <<a, b>>)
(* loading: processes partition the data, chunks keep the order and lose less than one batch *)
ASSUME \A n \in 0..9, procs \in 1..3 : LET data == [i \in 1..n |-> i] IN
   /\ UNION {{OfProcess(data, procs, p)[k] : k \in 1..Len(OfProcess(data, procs, p))} : p \in 0..(procs - 1)} = 1..n
   /\ \A p, q \in 0..(procs - 1) : p # q => {OfProcess(data, procs, p)[k] : k \in 1..Len(OfProcess(data, procs, p))} \cap {OfProcess(data, procs, q)[k] : k \in 1..Len(OfProcess(data, procs, q))} = {}
   /\ \A s \in 1..4 : Len(Flat(Chunks(data, s))) > n - s /\ \A k \in 1..Len(Flat(Chunks(data, s))) : Flat(Chunks(data, s))[k] = k
(* the first Adam update has the size of the learning rate *)
ASSUME \A g \in {"0.25", "-3.0", "1e-3"} : LET m == Moment1(Zeros(1), <<g>>) v == Moment2(Zeros(1), <<g>>) IN
   RClose(RAbs(RSub(Updated("adam", <<"1.0">>, <<g>>, m, v, 1, LR, "0.0")[1], "1.0")), LR, "1e-6", "1e-4")
=============================================================================
