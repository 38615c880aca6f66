// TLC operator overrides for spec/Real64.tla: IEEE-754 binary64 arithmetic.
// A real is the tuple <<hi, lo>> of the two 32-bit halves of its bit pattern.
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Real64 {
  static final class R extends TupleValue {
    final double d;
    R(double d) { super(halves(d)); this.d = d; }
    static Value[] halves(double d) {
      long b = Double.doubleToRawLongBits(d);
      return new Value[] {IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b)};
    }
  }

  static double u(Value v) {
    if (v instanceof R) return ((R) v).d;
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null || t.elems.length != 2) throw new RuntimeException("not a Real64: " + v);
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
    return Double.longBitsToDouble((hi << 32) | lo);
  }
  static Value r(double d) { return new R(d); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int i(Value v) { return ((IntValue) v).val; }
  // round half away from zero, as Rust's f64::round
  static double rnd(double x) {
    double f = Math.abs(x) < 4503599627370496.0 ? (double) (long) x : x; // truncate
    double diff = Math.abs(x - f);
    return diff >= 0.5 ? f + Math.signum(x) : f;
  }
  static Value toInt(double x) {
    if (Double.isNaN(x)) return IntValue.gen(0);
    if (x >= 2147483647.0) return IntValue.gen(2147483647);
    if (x <= -2147483647.0) return IntValue.gen(-2147483647);
    return IntValue.gen((int) x);
  }

  static final java.util.concurrent.ConcurrentHashMap<Object, R> LITS = new java.util.concurrent.ConcurrentHashMap<>();
  public static Value RLit(Value s) {
    Object k = ((StringValue) s).val;
    R v = LITS.get(k);
    if (v == null) { v = new R(Double.parseDouble(k.toString())); LITS.put(k, v); }
    return v;
  }
  public static Value RInt(Value a) { return r(i(a)); }
  public static Value RNorm(Value a) { return r(u(a)); }
  public static Value RAdd(Value a, Value b) { return r(u(a) + u(b)); }
  public static Value RSub(Value a, Value b) { return r(u(a) - u(b)); }
  public static Value RMul(Value a, Value b) { return r(u(a) * u(b)); }
  public static Value RDiv(Value a, Value b) { return r(u(a) / u(b)); }
  public static Value RNeg(Value a) { return r(-u(a)); }
  public static Value RAbs(Value a) { return r(Math.abs(u(a))); }
  public static Value RSqrt(Value a) { return r(Math.sqrt(u(a))); }
  public static Value RPow(Value a, Value b) { return r(Math.pow(u(a), u(b))); }
  public static Value RExp(Value a) { return r(Math.exp(u(a))); }
  public static Value RLn(Value a) { return r(Math.log(u(a))); }
  public static Value RSin(Value a) { return r(Math.sin(u(a))); }
  public static Value RCos(Value a) { return r(Math.cos(u(a))); }
  public static Value RAtan2(Value a, Value b) { return r(Math.atan2(u(a), u(b))); }
  public static Value RMod(Value a, Value b) { return r(u(a) % u(b)); }
  public static Value RMin(Value a, Value b) { return u(b) < u(a) ? b : a; }
  public static Value RMax(Value a, Value b) { return u(b) > u(a) ? b : a; }
  public static Value RRound(Value a) { return r(rnd(u(a))); }
  public static Value RFloor(Value a) { return r(Math.floor(u(a))); }
  public static Value RCeil(Value a) { return r(Math.ceil(u(a))); }
  public static Value IRound(Value a) { return toInt(rnd(u(a))); }
  public static Value IFloor(Value a) { return toInt(Math.floor(u(a))); }
  public static Value ICeil(Value a) { return toInt(Math.ceil(u(a))); }
  public static Value RLt(Value a, Value b) { return b(u(a) < u(b)); }
  public static Value RLe(Value a, Value b) { return b(u(a) <= u(b)); }
  public static Value REq(Value a, Value b) { return b(u(a) == u(b)); }
  public static Value RFinite(Value a) { double x = u(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value RStr(Value a) { return new StringValue(Double.toString(u(a))); }

  // sequences of reals
  static double[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    double[] d = new double[t.elems.length];
    for (int k = 0; k < d.length; k++) d[k] = u(t.elems[k]);
    return d;
  }
  public static Value RPrefix(Value s) {
    double[] d = seq(s);
    Value[] o = new Value[d.length];
    double sum = 0;
    for (int k = 0; k < d.length; k++) { sum += d[k]; o[k] = r(sum); }
    return new TupleValue(o);
  }
  public static Value IFirstMin(Value s) {
    double[] d = seq(s);
    int b = 0;
    for (int k = 1; k < d.length; k++) if (d[k] < d[b]) b = k;
    return IntValue.gen(b + 1);
  }
  public static Value ILastMax(Value s) {
    double[] d = seq(s);
    int b = 0;
    for (int k = 1; k < d.length; k++) if (d[k] >= d[b]) b = k;
    return IntValue.gen(b + 1);
  }
  public static Value IFirstAtLeast(Value s, Value x, Value from) {
    double[] d = seq(s);
    double y = u(x);
    for (int k = i(from) - 1; k < d.length; k++) if (d[k] >= y) return IntValue.gen(k + 1);
    return IntValue.gen(0);
  }
  private static TupleValue tup(Value s) { return (TupleValue) s.toTuple(); }
  // positions at which the elements of an integer sequence occur first
  public static Value IFirsts(Value s) {
    TupleValue t = tup(s);
    java.util.LinkedHashMap<Integer, Integer> m = new java.util.LinkedHashMap<>();
    for (int k = 0; k < t.elems.length; k++) m.putIfAbsent(i(t.elems[k]), k + 1);
    Value[] o = new Value[m.size()];
    int n = 0;
    for (int k : m.values()) o[n++] = IntValue.gen(k);
    return new TupleValue(o);
  }
  // how often each distinct element of an integer sequence occurs, in order of first occurrence
  public static Value ITimes(Value s) {
    TupleValue t = tup(s);
    java.util.LinkedHashMap<Integer, Integer> m = new java.util.LinkedHashMap<>();
    for (int k = 0; k < t.elems.length; k++) m.merge(i(t.elems[k]), 1, Integer::sum);
    Value[] o = new Value[m.size()];
    int n = 0;
    for (int k : m.values()) o[n++] = IntValue.gen(k);
    return new TupleValue(o);
  }
}
