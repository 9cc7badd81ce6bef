import tlc2.value.impl.*;
import util.UniqueString;

/** 64-bit implementation of the operators of Num.tla (same semantics). */
public class Num {
  static final long MAXHI = 2147483647L, SAT = MAXHI << 30, MASK = (1L << 30) - 1;

  static long get(Value v) {
    TupleValue t = (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple();
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return (hi << 30) + lo;
  }
  static boolean num(long x) { long hi = x >> 30; return hi < MAXHI && hi > -MAXHI; }
  static long sat(boolean neg) { return neg ? -SAT : SAT; }
  static long clamp(long x) { long hi = x >> 30; return (hi > MAXHI || hi < -MAXHI || (hi == -MAXHI - 1)) ? sat(x < 0) : x; }
  static Value put(long x) {
    return new TupleValue(new Value[] { IntValue.gen((int) (x >> 30)), IntValue.gen((int) (x & MASK)) });
  }
  static Value[] seq(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = (Value) v.toTuple();
    if (t == null) throw new RuntimeException("Num: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static long add(long a, long b) { return !num(a) ? a : !num(b) ? b : clamp(a + b); }
  static long neg(long a) { return !num(a) ? ((-(a >> 30)) << 30) : -a; }
  static long mul(long a, long b) {
    if (!num(a) || !num(b)) return sat(((a >> 30) < 0) != ((b >> 30) < 0));
    long hi = Math.multiplyHigh(a, b), lo = a * b;
    long top = hi >> 37;                       // must be sign extension for the result to fit in 63 bits
    if (top != 0 && top != -1) return sat(hi < 0);
    return clamp((hi << 26) | (lo >>> 38));
  }
  static boolean near(long a, long b, long tol) {
    if (!num(a) || !num(b)) return false;
    long d = add(a, neg(b)); if (d < 0) d = neg(d);
    return d <= tol;
  }

  public static Value Add(Value a, Value b) { return put(add(get(a), get(b))); }
  public static Value Neg(Value a) { return put(neg(get(a))); }
  public static Value Sub(Value a, Value b) { return put(add(get(a), neg(get(b)))); }
  public static Value Mul(Value a, Value b) { return put(mul(get(a), get(b))); }
  public static Value Abs(Value a) { long x = get(a); return put((x >> 30) < 0 ? neg(x) : x); }
  public static Value MulI(Value a, IntValue k) { return put(mul(get(a), ((long) k.val) << 38)); }
  public static Value DivI(Value a, IntValue k) { long x = get(a); return put(!num(x) ? x : Math.floorDiv(x, (long) k.val)); }
  public static Value Rat(IntValue p, IntValue q) { return put(Math.floorDiv(((long) p.val) << 38, (long) q.val)); }
  public static Value Le(Value a, Value b) { return get(a) <= get(b) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value Dot(Value u, Value v) {
    Value[] x = seq(u), y = seq(v); long s = 0;
    if (y.length < x.length) throw new RuntimeException("Num: Dot of different lengths");
    for (int i = 0; i < x.length; i++) s = add(s, mul(get(x[i]), get(y[i])));
    return put(s);
  }
  public static Value VSum(Value u) { long s = 0; for (Value v : seq(u)) s = add(s, get(v)); return put(s); }
  public static Value SpDot(Value idx, Value w, Value row) {
    Value[] ix = seq(idx), ww = seq(w), r = seq(row); long s = 0;
    for (int k = 0; k < ww.length; k++) {
      int i = ((IntValue) ix[k]).val;
      s = add(s, mul(get(ww[k]), get(r[i - 1])));
    }
    return put(s);
  }
  public static Value VAdd(Value u, Value v) {
    Value[] x = seq(u), y = seq(v), r = new Value[x.length];
    for (int i = 0; i < x.length; i++) r[i] = put(add(get(x[i]), get(y[i])));
    return new TupleValue(r);
  }
  public static Value VMul(Value u, Value v) {
    Value[] x = seq(u), y = seq(v), r = new Value[x.length];
    for (int i = 0; i < x.length; i++) r[i] = put(mul(get(x[i]), get(y[i])));
    return new TupleValue(r);
  }
  public static Value VScale(Value a, Value u) {
    Value[] x = seq(u), r = new Value[x.length]; long s = get(a);
    for (int i = 0; i < x.length; i++) r[i] = put(mul(s, get(x[i])));
    return new TupleValue(r);
  }
  public static Value LinComb(Value c, Value rows) {
    Value[] cc = seq(c), rr = seq(rows);
    int n = seq(rr[0]).length; long[] s = new long[n];
    for (int i = 0; i < rr.length; i++) {
      Value[] row = seq(rr[i]); long k = get(cc[i]);
      for (int p = 0; p < n; p++) s[p] = add(s[p], mul(k, get(row[p])));
    }
    Value[] r = new Value[n]; for (int p = 0; p < n; p++) r[p] = put(s[p]);
    return new TupleValue(r);
  }
  public static Value Near(Value a, Value b, Value tol) { return bool(near(get(a), get(b), get(tol))); }
  public static Value AllNear(Value u, Value v, Value tol) {
    Value[] x = seq(u), y = seq(v); if (x.length != y.length) return BoolValue.ValFalse;
    long t = get(tol);
    for (int i = 0; i < x.length; i++) if (!near(get(x[i]), get(y[i]), t)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value AllZero(Value u, Value tol) {
    long t = get(tol);
    for (Value v : seq(u)) if (!near(get(v), 0, t)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value AllNum(Value u) {
    for (Value v : seq(u)) if (!num(get(v))) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value MaxAbs(Value u) {
    long m = 0;
    for (Value v : seq(u)) { long x = get(v); if ((x >> 30) < 0) x = neg(x); if (x > m) m = x; }
    return put(m);
  }
}
