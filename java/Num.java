/* TLC realisation of spec/Num.tla: exact rational arithmetic on strings "n" or "n/d"
   (big integers), plus "inf", "-inf", "nan".  Transcendental functions round through
   IEEE double and return the exact rational value of that double. */
import tlc2.value.impl.*;
import java.math.*;
public class Num {
  static final int FIN = 0, PINF = 1, NINF = 2, NAN = 3;
  static final class R {
    final BigInteger n, d; final int k;
    R(int k, boolean special) { this.k = k; n = BigInteger.ZERO; d = BigInteger.ONE; }
    R(BigInteger n, BigInteger d) {
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      if (!d.equals(BigInteger.ONE)) { BigInteger g = n.gcd(d); if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); } }
      this.n = n; this.d = d; k = FIN;
    }
    R(long n) { this(BigInteger.valueOf(n), BigInteger.ONE); }
    boolean fin() { return k == FIN; }
    int sgn() { return k == PINF ? 1 : k == NINF ? -1 : n.signum(); }
    double dbl() {
      if (k == PINF) return Double.POSITIVE_INFINITY; if (k == NINF) return Double.NEGATIVE_INFINITY; if (k == NAN) return Double.NaN;
      return new BigDecimal(n).divide(new BigDecimal(d), new MathContext(40)).doubleValue();
    }
  }
  static final R ZERO = new R(0), ONE = new R(1), NaN = new R(NAN, true), INF = new R(PINF, true), MINF = new R(NINF, true);
  static R of(double x) {
    if (Double.isNaN(x)) return NaN; if (Double.isInfinite(x)) return x > 0 ? INF : MINF;
    BigDecimal b = new BigDecimal(x);
    return b.scale() > 0 ? new R(b.unscaledValue(), BigInteger.TEN.pow(b.scale())) : new R(b.toBigIntegerExact(), BigInteger.ONE);
  }
  static R parse(Object v) {
    if (v instanceof IntValue) return new R(((IntValue) v).val);
    String s = ((StringValue) v).val.toString();
    if (s.equals("inf")) return INF; if (s.equals("-inf")) return MINF; if (s.equals("nan")) return NaN;
    int i = s.indexOf('/');
    if (i < 0) return new R(new BigInteger(s), BigInteger.ONE);
    return new R(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
  }
  static String str(R r) {
    switch (r.k) { case PINF: return "inf"; case NINF: return "-inf"; case NAN: return "nan"; }
    return r.d.equals(BigInteger.ONE) ? r.n.toString() : r.n + "/" + r.d;
  }
  static Value out(R r) { return new StringValue(str(r)); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static R add(R x, R y) {
    if (x.k == NAN || y.k == NAN) return NaN;
    if (!x.fin() || !y.fin()) { if (x.fin()) return y; if (y.fin()) return x; return x.k == y.k ? x : NaN; }
    if (x.d.equals(y.d)) return new R(x.n.add(y.n), x.d);
    return new R(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d));
  }
  static R neg(R x) { return x.k == PINF ? MINF : x.k == NINF ? INF : x.k == NAN ? NaN : new R(x.n.negate(), x.d); }
  static R mul(R x, R y) {
    if (x.k == NAN || y.k == NAN) return NaN;
    if (!x.fin() || !y.fin()) { int s = x.sgn() * y.sgn(); return s > 0 ? INF : s < 0 ? MINF : NaN; }
    return new R(x.n.multiply(y.n), x.d.multiply(y.d));
  }
  static R div(R x, R y) {
    if (x.k == NAN || y.k == NAN) return NaN;
    if (!y.fin()) return x.fin() ? ZERO : NaN;
    if (y.sgn() == 0) return x.sgn() > 0 ? INF : x.sgn() < 0 ? MINF : NaN;
    if (!x.fin()) return x.sgn() * y.sgn() > 0 ? INF : MINF;
    return new R(x.n.multiply(y.d), x.d.multiply(y.n));
  }
  static int cmp(R x, R y) { // nan excluded by callers
    if (!x.fin() || !y.fin()) { double a = x.fin() ? 0 : x.dbl(), b = y.fin() ? 0 : y.dbl(); return Double.compare(a, b); }
    return x.n.multiply(y.d).compareTo(y.n.multiply(x.d));
  }
  static boolean nan(R x, R y) { return x.k == NAN || y.k == NAN; }
  public static Value RAdd(Value a, Value b) { return out(add(parse(a), parse(b))); }
  public static Value RSub(Value a, Value b) { return out(add(parse(a), neg(parse(b)))); }
  public static Value RMul(Value a, Value b) { return out(mul(parse(a), parse(b))); }
  public static Value RDiv(Value a, Value b) { return out(div(parse(a), parse(b))); }
  public static Value RNeg(Value a) { return out(neg(parse(a))); }
  public static Value RAbs(Value a) { R x = parse(a); return out(x.sgn() < 0 ? neg(x) : x); }
  public static Value RLe(Value a, Value b) { R x = parse(a), y = parse(b); return bool(!nan(x, y) && cmp(x, y) <= 0); }
  public static Value RLt(Value a, Value b) { R x = parse(a), y = parse(b); return bool(!nan(x, y) && cmp(x, y) < 0); }
  public static Value REq(Value a, Value b) { R x = parse(a), y = parse(b); return bool(!nan(x, y) && cmp(x, y) == 0); }
  public static Value RMin(Value a, Value b) { R x = parse(a), y = parse(b); return out(nan(x, y) ? NaN : cmp(x, y) <= 0 ? x : y); }
  public static Value RMax(Value a, Value b) { R x = parse(a), y = parse(b); return out(nan(x, y) ? NaN : cmp(x, y) >= 0 ? x : y); }
  public static Value RFin(Value a) { return bool(parse(a).fin()); }
  public static Value RSign(Value a) { return IntValue.gen(parse(a).sgn()); }
  public static Value RFloor(Value a) { R x = parse(a); BigInteger[] qr = x.n.divideAndRemainder(x.d); BigInteger q = qr[0]; if (qr[1].signum() < 0) q = q.subtract(BigInteger.ONE); return IntValue.gen(q.intValueExact()); }
  public static Value RSeq(Value s) { TupleValue t = (TupleValue) s.toTuple(); Value[] o = new Value[t.elems.length]; for (int i = 0; i < o.length; i++) { o[i] = t.elems[i]; o[i].normalize(); } return new TupleValue(o); }
  public static Value RSum(Value s) { TupleValue t = (TupleValue) s.toTuple(); R acc = ZERO; for (Value v : t.elems) acc = add(acc, parse(v)); return out(acc); }
  public static Value RDot(Value s, Value u) { TupleValue t = (TupleValue) s.toTuple(), w = (TupleValue) u.toTuple(); R acc = ZERO; if (t.elems.length != w.elems.length) return out(NaN); for (int i = 0; i < t.elems.length; i++) acc = add(acc, mul(parse(t.elems[i]), parse(w.elems[i]))); return out(acc); }
  /* |a-b| <= tol * max(1,|a|,|b|); equal infinities are near; nan is near nothing */
  public static Value RNear(Value a, Value b, Value tol) {
    R x = parse(a), y = parse(b), t = parse(tol);
    if (nan(x, y)) return bool(false);
    if (!x.fin() || !y.fin()) return bool(x.k == y.k);
    R df = add(x, neg(y)); if (df.sgn() < 0) df = neg(df);
    R ax = x.sgn() < 0 ? neg(x) : x, ay = y.sgn() < 0 ? neg(y) : y, m = ONE;
    if (cmp(ax, m) > 0) m = ax; if (cmp(ay, m) > 0) m = ay;
    return bool(cmp(df, mul(t, m)) <= 0);
  }
  /* round to 60 decimal digits after the point: keeps long computations small */
  public static Value RTrim(Value a) { R x = parse(a); if (!x.fin() || x.d.bitLength() < (x.d.bitCount() == 1 ? 256 : 40)) return a; BigInteger S = BigInteger.ONE.shiftLeft(220); BigInteger q = x.n.multiply(S).divide(x.d); return out(new R(q, S)); }
  public static Value RExp(Value a) { return out(of(Math.exp(parse(a).dbl()))); }
  public static Value RLog(Value a) { return out(of(Math.log(parse(a).dbl()))); }
  public static Value RCos(Value a) { return out(of(Math.cos(parse(a).dbl()))); }
  public static Value RSin(Value a) { return out(of(Math.sin(parse(a).dbl()))); }
  public static Value RTanh(Value a) { return out(of(Math.tanh(parse(a).dbl()))); }
  public static Value RPi() { return out(of(Math.PI)); }
  public static Value RPowR(Value a, Value b) { return out(of(Math.pow(parse(a).dbl(), parse(b).dbl()))); }
  public static Value RSqrt(Value a) {
    R x = parse(a); if (!x.fin()) return out(x); if (x.sgn() < 0) return out(NaN); if (x.sgn() == 0) return out(ZERO);
    BigInteger S = BigInteger.ONE.shiftLeft(240); BigInteger q = x.n.multiply(S).divide(x.d);
    return out(new R(q.sqrt(), BigInteger.ONE.shiftLeft(120)));
  }
  /** standard normal distribution function */
  public static Value RPhi(Value a) { return out(of(phi(parse(a).dbl()))); }
  static double phi(double x) {
    if (x > 40) return 1; if (x < -40) return 0;
    double z = Math.abs(x), r;
    if (z < 2) { double t = z, s = z; for (int i = 1; i < 400; i++) { t *= z * z / (2 * i + 1); s += t; if (t < 1e-18 * s) break; }
      r = 0.5 - s * Math.exp(-z * z / 2) / Math.sqrt(2 * Math.PI); }
    else { double f = z; for (int i = 200; i > 0; i--) f = z + i / f; r = Math.exp(-z * z / 2) / Math.sqrt(2 * Math.PI) / f; }
    return x < 0 ? r : 1 - r;
  }
  /** regularised incomplete beta function, continued fraction (Lentz) */
  static double lgam(double x) { double[] c = {0.99999999999980993, 676.5203681218851, -1259.1392167224028, 771.32342877765313, -176.61502916214059, 12.507343278686905, -0.13857109526572012, 9.9843695780195716e-6, 1.5056327351493116e-7};
    if (x < 0.5) return Math.log(Math.PI / Math.sin(Math.PI * x)) - lgam(1 - x); x -= 1; double a = c[0], t = x + 7.5; for (int i = 1; i < 9; i++) a += c[i] / (x + i); return 0.5 * Math.log(2 * Math.PI) + (x + 0.5) * Math.log(t) - t + Math.log(a); }
  static double ibeta(double a, double b, double x) {
    if (x <= 0) return 0; if (x >= 1) return 1;
    if (x > (a + 1) / (a + b + 2)) return 1 - ibeta(b, a, 1 - x);
    double f = Math.exp(lgam(a + b) - lgam(a) - lgam(b) + a * Math.log(x) + b * Math.log1p(-x)) / a, c = 1, d = 1 - (a + b) * x / (a + 1);
    if (Math.abs(d) < 1e-300) d = 1e-300; d = 1 / d; double h = d;
    for (int m = 1; m < 10000; m++) {
      double num = m * (b - m) * x / ((a + 2 * m - 1) * (a + 2 * m));
      d = 1 + num * d; if (Math.abs(d) < 1e-300) d = 1e-300; c = 1 + num / c; if (Math.abs(c) < 1e-300) c = 1e-300; d = 1 / d; h *= d * c;
      num = -(a + m) * (a + b + m) * x / ((a + 2 * m) * (a + 2 * m + 1));
      d = 1 + num * d; if (Math.abs(d) < 1e-300) d = 1e-300; c = 1 + num / c; if (Math.abs(c) < 1e-300) c = 1e-300; d = 1 / d; double del = d * c; h *= del;
      if (Math.abs(del - 1) < 1e-16) break;
    }
    return f * h;
  }
  /** quantile of Student's t distribution with b degrees of freedom at level a */
  public static Value RTQuantile(Value a, Value b) {
    double p = parse(a).dbl(), v = parse(b).dbl(); if (p == 0.5) return out(ZERO); if (p >= 1) return out(INF); if (p <= 0) return out(MINF);
    double q = p > 0.5 ? 1 - p : p, lo = 0, hi = 1;
    while (0.5 * ibeta(v / 2, 0.5, v / (v + hi * hi)) > q && hi < 1e300) hi *= 2;
    for (int i = 0; i < 200; i++) { double m = (lo + hi) / 2; if (0.5 * ibeta(v / 2, 0.5, v / (v + m * m)) > q) lo = m; else hi = m; }
    return out(of(p > 0.5 ? lo : -lo));
  }
  public static Value RStr(Value a) { R x = parse(a); return new StringValue(x.fin() ? Double.toString(x.dbl()) : str(x)); }
}
