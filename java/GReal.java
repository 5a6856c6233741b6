// TLC module override for spec/GReal.tla: real arithmetic for the specification.
//
// A GReal value is a high-precision decimal v (40 significant digits) together
// with a magnitude m >= |v|, the value obtained when every subtraction in the
// expression that produced v is replaced by an addition of absolute values.
// u*m bounds, up to a small factor, the rounding error any straightforward
// floating point evaluation of the expression makes, so tolerances scale with
// m and not with a possibly cancelled |v|.
// "undetermined" values (division by zero, a piece selection closer to a
// junction than rounding can resolve) are absorbing and compare close to
// anything.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.tool.FingerprintException;
import tlc2.util.FP64;
import tlc2.value.IValue;
import tlc2.value.impl.*;

public class GReal {
  static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
  static final MathContext MCX = new MathContext(50, RoundingMode.HALF_EVEN);

  public static final class RV extends Value {
    final BigDecimal v;   // null: undetermined or not finite
    final double m;       // magnitude
    final boolean exact;  // an input, not the result of an operation
    final boolean bad;    // a logged NaN / infinity: close to nothing
    RV(BigDecimal v, double m, boolean exact, boolean bad) {
      this.v = v; this.m = m; this.exact = exact; this.bad = bad;
    }
    public byte getKind() { return REALVALUE; }
    public boolean member(Value e) { throw new RuntimeException("member of a real"); }
    public boolean isFinite() { throw new RuntimeException("isFinite of a real"); }
    public Value takeExcept(ValueExcept ex) {
      if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT on a real");
      return ex.value;
    }
    public Value takeExcept(ValueExcept[] exs) {
      return exs.length == 0 ? this : takeExcept(exs[exs.length - 1]);
    }
    public int size() { throw new RuntimeException("size of a real"); }
    public boolean mutates() { return false; }
    public boolean isNormalized() { return true; }
    public Value normalize() { return this; }
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public boolean assignable(Value val) { return val instanceof RV; }
    public int compareTo(Object o) {
      RV r = (RV) o;
      if (v == null || r.v == null) return v == r.v ? 0 : (v == null ? -1 : 1);
      return v.compareTo(r.v);
    }
    public boolean equals(Object o) { return o instanceof RV && compareTo(o) == 0; }
    public long fingerPrint(long fp) {
      fp = FP64.Extend(fp, REALVALUE);
      return FP64.Extend(fp, v == null ? "undef" : v.stripTrailingZeros().toString());
    }
    public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
      if (v == null) return sb.append(bad ? "NaN" : "undef");
      return sb.append(v.round(new MathContext(20)).toString());
    }
  }

  static final RV UNDEF = new RV(null, 0, false, false);
  static final RV BAD = new RV(null, 0, false, true);
  static final RV ZERO = new RV(BigDecimal.ZERO, 0, true, false);
  static final RV NIL = new RV(BigDecimal.ZERO, 0, false, false);

  static RV mk(BigDecimal v, double m) { return new RV(v, m, false, false); }
  // the result of an operation on two exact numbers is exact when it has so
  // few binary digits that no order of evaluation can round it
  static final BigDecimal BIG = BigDecimal.valueOf(1L << 20);
  static RV mk(BigDecimal v, double m, boolean exact) {
    if (exact) {
      double d = v.doubleValue() * (1L << 20);
      exact = Math.abs(d) < 1.1e12 && d == Math.rint(d) && m < 1e6
          && v.multiply(BIG).compareTo(new BigDecimal(d)) == 0;
    }
    return new RV(v, m, exact, false);
  }
  static RV c(Value x) {
    if (x instanceof RV) return (RV) x;
    if (x instanceof IntValue) return fromInt(((IntValue) x).val);
    if (x instanceof StringValue) return parse(((StringValue) x).val.toString());
    if (x instanceof RV) return (RV) x;
    throw new RuntimeException("not a real: " + x);
  }
  static RV fromInt(int i) { return new RV(BigDecimal.valueOf(i), Math.abs((double) i), true, false); }

  static final java.util.concurrent.ConcurrentHashMap<String, RV> CACHE = new java.util.concurrent.ConcurrentHashMap<>();
  static RV parse(String s) {
    RV r = CACHE.get(s);
    if (r == null) {
      r = parse0(s);
      if (CACHE.size() > 300000) CACHE.clear();
      CACHE.put(s, r);
    }
    return r;
  }
  static RV parse0(String s) {
    s = s.trim();
    if (s.equals("undef")) return UNDEF;
    if (s.contains("nan") || s.contains("inf") || s.contains("NaN") || s.contains("Inf")) return BAD;
    int sl = s.indexOf('/');
    if (sl >= 0) {
      BigDecimal a = new BigDecimal(s.substring(0, sl)), b = new BigDecimal(s.substring(sl + 1));
      BigDecimal q = a.divide(b, MC);
      return new RV(q, Math.abs(q.doubleValue()), false, false);
    }
    BigDecimal b;
    if (s.startsWith("0x") || s.startsWith("-0x")) b = new BigDecimal(Double.parseDouble(s));
    else b = new BigDecimal(s);
    double d = b.doubleValue();
    boolean ex = new BigDecimal(d).compareTo(b) == 0;
    b = b.round(MCX);
    return new RV(b, Math.abs(d), ex, false);
  }

  // ---- operators (names and arities as in GReal.tla)
  public static Value R(Value s) { return c(s); }
  public static Value RUndef() { return UNDEF; }
  public static Value RIsUndef(Value a) { RV x = c(a); return x.v == null && !x.bad ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RIsBad(Value a) { return c(a).bad ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RAdd(Value a, Value b) { return add(c(a), c(b)); }
  static RV add(RV x, RV y) {
    if (x.v == null) return x; if (y.v == null) return y;
    if (x.m == 0 && x.exact && x.v.signum() == 0) return y;
    if (y.m == 0 && y.exact && y.v.signum() == 0) return x;
    return mk(x.v.add(y.v, MC), x.m + y.m, x.exact && y.exact);
  }
  public static Value RSub(Value a, Value b) {
    RV x = c(a), y = c(b);
    if (x.v == null) return x; if (y.v == null) return y;
    return mk(x.v.subtract(y.v, MC), x.m + y.m, x.exact && y.exact);
  }
  public static Value RNeg(Value a) {
    RV x = c(a);
    return x.v == null ? x : new RV(x.v.negate(), x.m, x.exact, false);
  }
  public static Value RAbs(Value a) {
    RV x = c(a);
    return x.v == null ? x : new RV(x.v.abs(), x.m, x.exact, false);
  }
  public static Value RMul(Value a, Value b) { return mul(c(a), c(b)); }
  static RV mul(RV x, RV y) {
    if (x.v == null) return x; if (y.v == null) return y;
    if (x.m == 0 && x.exact && x.v.signum() == 0 && y.exact) return x;
    if (y.m == 0 && y.exact && y.v.signum() == 0 && x.exact) return y;
    if ((x.m == 0 && x.v.signum() == 0) || (y.m == 0 && y.v.signum() == 0)) return NIL;
    return mk(x.v.multiply(y.v, MC), x.m * y.m, x.exact && y.exact);
  }
  public static Value RDiv(Value a, Value b) {
    RV x = c(a), y = c(b);
    if (x.v == null) return x; if (y.v == null) return y;
    double yd = Math.abs(y.v.doubleValue());
    if (y.v.signum() == 0 || yd <= 1e-10 * y.m) return UNDEF;
    double xd = Math.abs(x.v.doubleValue());
    return mk(x.v.divide(y.v, MC), x.m / yd + xd * y.m / (yd * yd));
  }
  public static Value RSqrt(Value a) {
    RV x = c(a);
    if (x.v == null) return x;
    double xd = Math.abs(x.v.doubleValue());
    if (x.v.signum() == 0 && x.m == 0) return ZERO;
    if (x.v.signum() < 0 || xd <= 1e-10 * x.m) return UNDEF;
    return mk(x.v.sqrt(MC), Math.sqrt(xd) * (x.m / xd));
  }
  static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899");
  static final BigDecimal PI2 = PI.multiply(BigDecimal.valueOf(2));
  static BigDecimal sin0(BigDecimal x, boolean cos) {
    x = x.remainder(PI2);
    BigDecimal h = x.divide(BigDecimal.valueOf(8), MCX); // reduce, then double-angle 3 times
    BigDecimal h2 = h.multiply(h, MCX);
    BigDecimal s = h, t = h;
    for (int k = 1; k < 60; k++) {
      t = t.multiply(h2, MCX).divide(BigDecimal.valueOf(-(2L * k) * (2L * k + 1)), MCX);
      if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-50")) < 0) break;
      s = s.add(t, MCX);
    }
    BigDecimal co = BigDecimal.ONE; t = BigDecimal.ONE;
    for (int k = 1; k < 60; k++) {
      t = t.multiply(h2, MCX).divide(BigDecimal.valueOf(-(2L * k - 1) * (2L * k)), MCX);
      if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-50")) < 0) break;
      co = co.add(t, MCX);
    }
    for (int i = 0; i < 3; i++) {
      BigDecimal s2 = s.multiply(co, MCX).multiply(BigDecimal.valueOf(2), MCX);
      co = co.multiply(co, MCX).subtract(s.multiply(s, MCX), MCX);
      s = s2;
    }
    return (cos ? co : s).round(MC);
  }
  public static Value RSin(Value a) {
    RV x = c(a);
    return x.v == null ? x : mk(sin0(x.v, false), 1 + x.m);
  }
  public static Value RCos(Value a) {
    RV x = c(a);
    return x.v == null ? x : mk(sin0(x.v, true), 1 + x.m);
  }
  static BigDecimal exp0(BigDecimal x) {
    if (x.abs().compareTo(BigDecimal.valueOf(600)) > 0) return null;
    int k = 0;
    BigDecimal h = x;
    while (h.abs().compareTo(new BigDecimal("0.25")) > 0) { h = h.divide(BigDecimal.valueOf(2), MCX); k++; }
    BigDecimal s = BigDecimal.ONE, t = BigDecimal.ONE;
    for (int i = 1; i < 80; i++) {
      t = t.multiply(h, MCX).divide(BigDecimal.valueOf(i), MCX);
      if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-52")) < 0) break;
      s = s.add(t, MCX);
    }
    for (int i = 0; i < k; i++) s = s.multiply(s, MCX);
    return s.round(MC);
  }
  public static Value RExp(Value a) {
    RV x = c(a);
    if (x.v == null) return x;
    BigDecimal e = exp0(x.v);
    if (e == null) return UNDEF;
    return mk(e, e.doubleValue() * (1 + x.m));
  }
  // three-way comparison of values; 0 also when either is undetermined
  public static Value RCmp(Value a, Value b) {
    RV x = c(a), y = c(b);
    if (x.v == null || y.v == null) return IntValue.gen(0);
    return IntValue.gen(x.v.compareTo(y.v));
  }
  public static Value RLe(Value a, Value b) {
    RV x = c(a), y = c(b);
    return x.v != null && y.v != null && x.v.compareTo(y.v) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value RLt(Value a, Value b) {
    RV x = c(a), y = c(b);
    return x.v != null && y.v != null && x.v.compareTo(y.v) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  // can rounding blur the order of a and b?  never for two inputs
  public static Value RBlurred(Value a, Value b) {
    RV x = c(a), y = c(b);
    if (x.v == null || y.v == null) return BoolValue.ValTrue;
    if (x.exact && y.exact) return BoolValue.ValFalse;
    double d = x.v.subtract(y.v, MC).abs().doubleValue();
    return d <= 1e-9 * (Math.abs(x.v.doubleValue()) + Math.abs(y.v.doubleValue()) + EM * (x.m + y.m)) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  static final double EM = System.getenv("GREAL_E") != null ? Double.parseDouble(System.getenv("GREAL_E")) : 1e-3;
  // |spec - obs| <= tol * (magnitude of spec) + tiny
  public static Value RClose(Value spec, Value obs, Value tol) {
    RV x = c(spec), y = c(obs);
    if (x.v == null) return x.bad ? BoolValue.ValFalse : BoolValue.ValTrue;
    if (y.v == null) return y.bad ? BoolValue.ValFalse : BoolValue.ValTrue;
    double d = x.v.subtract(y.v, MC).abs().doubleValue();
    double t = c(tol).v.doubleValue();
    return d <= t * (Math.abs(x.v.doubleValue()) + EM * Math.max(x.m, y.exact ? 0.0 : y.m)) + t * 1e-6 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value RMag(Value a) {
    RV x = c(a);
    return x.v == null ? x : new RV(new BigDecimal(x.m), x.m, false, false);
  }
  // a, of its own magnitude
  public static Value RExact(Value a) {
    RV x = c(a);
    return x.v == null ? x : new RV(x.v, Math.abs(x.v.doubleValue()), x.exact, false);
  }
  // a, of magnitude at least |b|
  public static Value RBlur(Value a, Value b) {
    RV x = c(a), y = c(b);
    if (x.v == null || y.v == null) return x;
    double m = Math.max(x.m, Math.abs(y.v.doubleValue()));
    return m == x.m ? x : new RV(x.v, m, false, false);
  }
  public static Value RStr(Value a) { return new StringValue(c(a).toString()); }

  // ---- vectors, same meaning as the TLA+ definitions, for speed
  static Value[] t(Value v) {
    Value u = v.toTuple();
    if (u == null) throw new RuntimeException("not a tuple: " + v);
    return ((TupleValue) u).elems;
  }
  public static Value RSum(Value s) {
    RV acc = ZERO;
    for (Value e : t(s)) acc = add(acc, c(e));
    return acc;
  }
  public static Value RDot(Value a, Value b) {
    Value[] x = t(a), y = t(b);
    if (x.length != y.length) throw new RuntimeException("RDot: lengths differ");
    RV acc = ZERO;
    for (int i = 0; i < x.length; i++) acc = add(acc, mul(c(x[i]), c(y[i])));
    return acc;
  }
  // integral over [-1, 1] of the product of two power series, cut at their length
  public static Value RIntProd(Value a, Value b) {
    Value[] x = t(a), y = t(b);
    if (x.length != y.length) throw new RuntimeException("RIntProd: lengths differ");
    RV acc = ZERO;
    for (int k = 0; k < x.length; k += 2) {
      RV s = ZERO;
      for (int i = 0; i <= k; i++) s = add(s, mul(c(x[i]), c(y[k - i])));
      RV two = new RV(BigDecimal.valueOf(2), 2, true, false), d = new RV(BigDecimal.valueOf(k + 1), k + 1, true, false);
      acc = add(acc, c(RDiv(mul(two, s), d)));
    }
    return acc;
  }
  // truncated product of two power series of the same length
  public static Value RConv(Value a, Value b) {
    Value[] x = t(a), y = t(b);
    if (x.length != y.length) throw new RuntimeException("RConv: lengths differ");
    Value[] r = new Value[x.length];
    for (int k = 0; k < r.length; k++) {
      RV acc = ZERO;
      for (int i = 0; i <= k; i++) acc = add(acc, mul(c(x[i]), c(y[k - i])));
      r[k] = acc;
    }
    return new TupleValue(r);
  }
  // a sequence, evaluated
  public static Value RVec(Value s) {
    Value[] x = t(s);
    return new TupleValue(x);
  }
  public static Value RVAdd(Value a, Value b) {
    Value[] x = t(a), y = t(b), r = new Value[x.length];
    if (x.length != y.length) throw new RuntimeException("RVAdd: lengths differ");
    for (int i = 0; i < x.length; i++) r[i] = RAdd(x[i], y[i]);
    return new TupleValue(r);
  }
  public static Value RVSub(Value a, Value b) {
    Value[] x = t(a), y = t(b), r = new Value[x.length];
    if (x.length != y.length) throw new RuntimeException("RVSub: lengths differ");
    for (int i = 0; i < x.length; i++) r[i] = RSub(x[i], y[i]);
    return new TupleValue(r);
  }
  public static Value RVScale(Value c, Value a) {
    Value[] x = t(a), r = new Value[x.length];
    for (int i = 0; i < x.length; i++) r[i] = RMul(c, x[i]);
    return new TupleValue(r);
  }
}
