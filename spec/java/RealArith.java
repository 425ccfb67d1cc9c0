// TLC module override for spec/RealArith.tla: IEEE-754 double arithmetic on
// real numbers written as decimal strings ("0.25"); integers are accepted too.
// Only arithmetic lives here: every formula of the specification is in TLA+.
import tlc2.value.impl.*;
import tlc2.value.IValue;

public class RealArith {
  private static double d(final Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) return Double.parseDouble(((StringValue) v).val.toString());
    throw new RuntimeException("RealArith: not a number: " + v);
  }
  private static Value s(final double x) {
    return new StringValue(Double.toString(x == 0.0 ? 0.0 : x));
  }
  private static Value[] seq(final Value v) {
    final TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("RealArith: not a sequence: " + v);
    return t.elems;
  }
  public static Value R(final Value a) { return s(d(a)); }
  public static Value RAdd(final Value a, final Value b) { return s(d(a) + d(b)); }
  public static Value RSub(final Value a, final Value b) { return s(d(a) - d(b)); }
  public static Value RMul(final Value a, final Value b) { return s(d(a) * d(b)); }
  public static Value RDiv(final Value a, final Value b) { return s(d(a) / d(b)); }
  public static Value RPow(final Value a, final Value b) { return s(Math.pow(d(a), d(b))); }
  public static Value RMin(final Value a, final Value b) { return s(Math.min(d(a), d(b))); }
  public static Value RMax(final Value a, final Value b) { return s(Math.max(d(a), d(b))); }
  public static Value RNeg(final Value a) { return s(-d(a)); }
  public static Value RAbs(final Value a) { return s(Math.abs(d(a))); }
  public static Value RExp(final Value a) { return s(Math.exp(d(a))); }
  public static Value RLog(final Value a) { return s(Math.log(d(a))); }
  public static Value RLog1p(final Value a) { return s(Math.log1p(d(a))); }
  public static Value RExpm1(final Value a) { return s(Math.expm1(d(a))); }
  public static Value RSqrt(final Value a) { return s(Math.sqrt(d(a))); }
  public static Value RLe(final Value a, final Value b) { return d(a) <= d(b) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RLt(final Value a, final Value b) { return d(a) < d(b) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value REq(final Value a, final Value b) { return d(a) == d(b) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RIsFinite(final Value a) {
    final double x = d(a);
    return (Double.isNaN(x) || Double.isInfinite(x)) ? BoolValue.ValFalse : BoolValue.ValTrue;
  }
  public static Value RFloor(final Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  public static Value RRound(final Value a) { return IntValue.gen((int) Math.rint(d(a))); }
  // value rounded to IEEE single precision, the precision the implementation computes in
  public static Value RSingle(final Value a) { return s((double) (float) d(a)); }
  public static Value RSum(final Value v) {
    double t = 0; for (Value e : seq(v)) t += d(e); return s(t);
  }
  public static Value RProd(final Value v) {
    double t = 1; for (Value e : seq(v)) t *= d(e); return s(t);
  }
  public static Value RMaxSeq(final Value v) {
    double t = Double.NEGATIVE_INFINITY; for (Value e : seq(v)) t = Math.max(t, d(e)); return s(t);
  }
  public static Value RLogSumExp(final Value v) {
    final Value[] es = seq(v);
    double m = Double.NEGATIVE_INFINITY; for (Value e : es) m = Math.max(m, d(e));
    if (Double.isInfinite(m)) return s(m);
    double t = 0; for (Value e : es) t += Math.exp(d(e) - m);
    return s(m + Math.log(t));
  }
  public static Value RDot(final Value v, final Value w) {
    final Value[] a = seq(v), b = seq(w); double t = 0;
    for (int i = 0; i < a.length; i++) t += d(a[i]) * d(b[i]);
    return s(t);
  }
}
