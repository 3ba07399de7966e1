import tlc2.value.impl.*;

/** TLC module override of Reals64.tla: a double is a pair of 32-bit halves. */
public class Reals64 {
  private static double d(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    long hi = ((IntValue) t.elems[0]).val;
    long lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
    return Double.longBitsToDouble((hi << 32) | lo);
  }
  private static Value v(double x) {
    long b = Double.doubleToRawLongBits(x);
    return new TupleValue(
        new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  private static Value b(boolean x) {
    return x ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value RLit(Value s) {
    return v(Double.parseDouble(((StringValue) s).val.toString()));
  }
  public static Value RInt(Value i) { return v(((IntValue) i).val); }
  public static Value RAdd(Value x, Value y) { return v(d(x) + d(y)); }
  public static Value RSub(Value x, Value y) { return v(d(x) - d(y)); }
  public static Value RMul(Value x, Value y) { return v(d(x) * d(y)); }
  public static Value RDiv(Value x, Value y) { return v(d(x) / d(y)); }
  public static Value RNeg(Value x) { return v(-d(x)); }
  public static Value RAbs(Value x) { return v(Math.abs(d(x))); }
  public static Value RSqrt(Value x) { return v(Math.sqrt(d(x))); }
  public static Value RSin(Value x) { return v(Math.sin(d(x))); }
  public static Value RCos(Value x) { return v(Math.cos(d(x))); }
  public static Value RTan(Value x) { return v(Math.tan(d(x))); }
  public static Value RAcos(Value x) { return v(Math.acos(d(x))); }
  public static Value RAtan(Value x) { return v(Math.atan(d(x))); }
  public static Value RAtan2(Value y, Value x) {
    return v(Math.atan2(d(y), d(x)));
  }
  public static Value RPow(Value x, Value y) { return v(Math.pow(d(x), d(y))); }
  public static Value RFloor(Value x) { return v(Math.floor(d(x))); }
  public static Value RLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value RLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value REq(Value x, Value y) { return b(d(x) == d(y)); }
  public static Value RIsNaN(Value x) { return b(Double.isNaN(d(x))); }
  public static Value RIsFinite(Value x) {
    double y = d(x);
    return b(!Double.isNaN(y) && !Double.isInfinite(y));
  }
  public static Value RToInt(Value x) { return IntValue.gen((int) d(x)); }
  public static Value RFMod(Value x, Value y) { return v(d(x) % d(y)); }
  public static Value RClose(Value x, Value y, Value t) {
    double a = d(x), c = d(y);
    return b(a == c || Math.abs(a - c) <= d(t));
  }
  /** sum of x[i]*y[i] */
  public static Value RSumProd(Value x, Value y) {
    TupleValue a = (TupleValue) x.toTuple(), c = (TupleValue) y.toTuple();
    double s = 0;
    for (int i = 0; i < a.elems.length; ++i) s += d(a.elems[i]) * d(c.elems[i]);
    return v(s);
  }
  public static Value RShow(Value x) {
    return new StringValue(Double.toString(d(x)));
  }
}
