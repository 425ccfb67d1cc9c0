----------------------------- MODULE RealArith -----------------------------
(***************************************************************************)
(* Real numbers for TLC.  A real is written as a decimal string ("0.25",   *)
(* "-1e9") or an integer.  TLC has no reals and 32-bit integers, so these  *)
(* operators are overridden by java/RealArith.java (IEEE-754 doubles).     *)
(* Nothing but arithmetic is overridden; all formulas stay in TLA+.        *)
(* The bodies below only document intent: TLC never evaluates them.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences
LOCAL INSTANCE TLC
LOCAL NotOverridden == Assert(FALSE, "RealArith override not loaded")
R(a) == NotOverridden            \* canonical form of a
RAdd(a, b) == NotOverridden
RSub(a, b) == NotOverridden
RMul(a, b) == NotOverridden
RDiv(a, b) == NotOverridden
RPow(a, b) == NotOverridden
RMin(a, b) == NotOverridden
RMax(a, b) == NotOverridden
RNeg(a) == NotOverridden
RAbs(a) == NotOverridden
RExp(a) == NotOverridden
RLog(a) == NotOverridden         \* natural logarithm
RLog1p(a) == NotOverridden
RExpm1(a) == NotOverridden
RSqrt(a) == NotOverridden
RLe(a, b) == NotOverridden       \* BOOLEAN
RLt(a, b) == NotOverridden       \* BOOLEAN
REq(a, b) == NotOverridden       \* BOOLEAN (NaN equals nothing)
RIsFinite(a) == NotOverridden    \* BOOLEAN
RFloor(a) == NotOverridden       \* Int
RRound(a) == NotOverridden       \* Int, ties to even
RSingle(a) == NotOverridden      \* nearest IEEE single
RSum(s) == NotOverridden         \* over a sequence
RProd(s) == NotOverridden
RMaxSeq(s) == NotOverridden
RLogSumExp(s) == NotOverridden
RDot(s, t) == NotOverridden

(* |a - b| <= atol + rtol * |b|  (false on NaN) *)
RClose(a, b, atol, rtol) ==
  \/ REq(a, b)
  \/ RLe(RAbs(RSub(a, b)), RAdd(atol, RMul(rtol, RAbs(b))))
RClip(a, lo, hi) == RMin(RMax(a, lo), hi)
=============================================================================
