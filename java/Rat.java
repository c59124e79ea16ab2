import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC module override of Rat.tla: exact rationals carried in strings "n" or "n/d". */
public class Rat {
  static final BigInteger Z = BigInteger.ZERO, ONE = BigInteger.ONE;

  static final class Q {
    final BigInteger n, d; // d > 0, coprime; d == 0 means "nan"
    Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    static Q of(BigInteger n, BigInteger d) {
      if (d.signum() == 0) return NAN;
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      if (d.equals(ONE)) return new Q(n, d);
      BigInteger g = n.gcd(d);
      if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
      return new Q(n, d);
    }
    boolean nan() { return d.signum() == 0; }
    Q add(Q o) { return nan() || o.nan() ? NAN : (d.equals(o.d) ? of(n.add(o.n), d) : of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d))); }
    Q neg() { return nan() ? NAN : new Q(n.negate(), d); }
    Q sub(Q o) { return add(o.neg()); }
    Q mul(Q o) { return nan() || o.nan() ? NAN : of(n.multiply(o.n), d.multiply(o.d)); }
    Q div(Q o) { return nan() || o.nan() || o.n.signum() == 0 ? NAN : of(n.multiply(o.d), d.multiply(o.n)); }
    Q abs() { return nan() ? NAN : new Q(n.abs(), d); }
    double fast = Double.NEGATIVE_INFINITY;
    /** value to within 1e-14 relative, or NaN when the quotient of doubles is not reliable */
    double fast() {
      if (fast == Double.NEGATIVE_INFINITY) {
        if (nan() || n.bitLength() > 1000 || d.bitLength() > 1000) fast = Double.NaN;
        else { double r = n.doubleValue() / d.doubleValue(); fast = r == 0 || Math.abs(r) > 1e-290 && Math.abs(r) < 1e290 ? r : Double.NaN; if (r == 0 && n.signum() != 0) fast = Double.NaN; }
      }
      return fast;
    }
    int cmp(Q o) {
      double a = fast(), c = o.fast();
      if (a == a && c == c) { double g = Math.abs(a - c); if (g > 1e-12 * (Math.abs(a) + Math.abs(c))) return a < c ? -1 : 1; }
      return exact(o);
    }
    int exact(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
    BigDecimal bd(int prec) { return new BigDecimal(n).divide(new BigDecimal(d), new MathContext(prec, RoundingMode.HALF_EVEN)); }
    double dbl() { return nan() ? Double.NaN : bd(20).doubleValue(); }
    public String toString() { return nan() ? "nan" : d.equals(ONE) ? n.toString() : n.toString() + "/" + d.toString(); }
  }
  static final Q NAN = new Q(ONE, Z), Q0 = new Q(Z, ONE), Q1 = new Q(ONE, ONE);

  static Q parse(String s) {
    if (s.equals("nan") || s.equals("inf") || s.equals("-inf") || s.equals("any")) return NAN;
    int i = s.indexOf('/');
    if (i >= 0) return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));   // canonical already
    boolean dec = false;
    for (int k = 0; k < s.length(); k++) { char c = s.charAt(k); if (c == '.' || c == 'e' || c == 'E') { dec = true; break; } }
    if (!dec) return new Q(new BigInteger(s), ONE);
    BigDecimal b = new BigDecimal(s);
    if (b.scale() <= 0) return new Q(b.toBigIntegerExact(), ONE);
    return Q.of(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
  }
  static final java.util.concurrent.ConcurrentHashMap<UniqueString, Q> CACHE = new java.util.concurrent.ConcurrentHashMap<>();
  static Q q(Value v) {
    if (v instanceof StringValue) {
      UniqueString u = ((StringValue) v).val;
      Q x = CACHE.get(u);
      if (x == null) { x = parse(u.toString()); if (CACHE.size() > 400000) CACHE.clear(); CACHE.put(u, x); }
      return x;
    }
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), ONE);
    throw new RuntimeException("Rat: not a number: " + v);
  }
  static Value s(Q x) { return new StringValue(x.toString()); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("Rat: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static Q dq(double x) { return Double.isNaN(x) || Double.isInfinite(x) ? NAN : parse(Double.toString(x)); }

  public static Value RNorm(Value a) { return s(q(a)); }
  public static Value RAdd(Value a, Value c) { return s(q(a).add(q(c))); }
  public static Value RSub(Value a, Value c) { return s(q(a).sub(q(c))); }
  public static Value RMul(Value a, Value c) { return s(q(a).mul(q(c))); }
  public static Value RDiv(Value a, Value c) { return s(q(a).div(q(c))); }
  public static Value RDivZ(Value a, Value c) { Q y = q(c); return s(y.n.signum() == 0 && !y.nan() ? Q0 : q(a).div(y)); }
  public static Value RNeg(Value a) { return s(q(a).neg()); }
  public static Value RAbs(Value a) { return s(q(a).abs()); }
  public static Value RIsNan(Value a) { return b(q(a).nan()); }
  public static Value RIsZero(Value a) { Q x = q(a); return b(!x.nan() && x.n.signum() == 0); }
  public static Value RLt(Value a, Value c) { Q x = q(a), y = q(c); return b(!x.nan() && !y.nan() && x.cmp(y) < 0); }
  public static Value RLe(Value a, Value c) { Q x = q(a), y = q(c); return b(!x.nan() && !y.nan() && x.cmp(y) <= 0); }
  public static Value REq(Value a, Value c) { Q x = q(a), y = q(c); return b(!x.nan() && !y.nan() && x.cmp(y) == 0); }
  public static Value RMin2(Value a, Value c) { Q x = q(a), y = q(c); return s(x.nan() || y.nan() ? NAN : x.cmp(y) <= 0 ? x : y); }
  public static Value RMax2(Value a, Value c) { Q x = q(a), y = q(c); return s(x.nan() || y.nan() ? NAN : x.cmp(y) >= 0 ? x : y); }
  public static Value RPow(Value a, Value k) {
    Q x = q(a); int e = ((IntValue) k).val;
    if (x.nan()) return s(NAN);
    if (e < 0) { x = Q1.div(x); e = -e; if (x.nan()) return s(NAN); }
    return s(Q.of(x.n.pow(e), x.d.pow(e)));
  }
  public static Value RSum(Value v) {
    BigInteger n = Z, d = ONE;
    for (Value x : seq(v)) {
      Q y = q(x);
      if (y.nan()) return s(NAN);
      if (y.n.signum() == 0) continue;
      if (y.d.equals(d)) n = n.add(y.n);
      else { n = n.multiply(y.d).add(y.n.multiply(d)); d = d.multiply(y.d); if (d.bitLength() > 2000) { Q r = Q.of(n, d); n = r.n; d = r.d; } }
    }
    return s(Q.of(n, d));
  }
  public static Value RProd(Value v) {
    BigInteger n = ONE, d = ONE;
    for (Value x : seq(v)) {
      Q y = q(x);
      if (y.nan()) return s(NAN);
      n = n.multiply(y.n); d = d.multiply(y.d);
    }
    return s(Q.of(n, d));
  }
  /** floor of a rational as a TLA+ integer. */
  public static Value RFloor(Value a) { Q x = q(a); BigInteger[] r = x.n.divideAndRemainder(x.d); return IntValue.gen((r[1].signum() < 0 ? r[0].subtract(ONE) : r[0]).max(BigInteger.valueOf(-2000000000)).min(BigInteger.valueOf(2000000000)).intValueExact()); }
  /** Round half even to k decimals (numpy.round). */
  public static Value RRound(Value a, Value k) {
    Q x = q(a); if (x.nan()) return s(NAN); int dg = ((IntValue) k).val;
    BigDecimal d = new BigDecimal(x.n).divide(new BigDecimal(x.d), Math.max(dg, 0) + 60, RoundingMode.HALF_EVEN).setScale(dg, RoundingMode.HALF_EVEN);
    return s(parse(d.toPlainString()));
  }
  /** Keep 50 significant digits: bounds the size of long rational computations (error far below the comparison tolerance). */
  public static Value RTrim(Value a) {
    Q x = q(a); if (x.nan() || x.d.equals(ONE) || x.d.bitLength() < 400) return s(x);
    return s(parse(x.bd(50).toString()));
  }
  // transcendental primitives: correct to double precision, compared only under a tolerance
  public static Value RLn(Value a) { return s(dq(Math.log(q(a).dbl()))); }
  public static Value RExp(Value a) { return s(dq(Math.exp(q(a).dbl()))); }
  public static Value RSqrt(Value a) { Q x = q(a); return s(x.nan() || x.n.signum() < 0 ? NAN : parse(x.bd(60).sqrt(new MathContext(50)).toString())); }
  public static Value RPowR(Value a, Value e) { return s(dq(Math.pow(q(a).dbl(), q(e).dbl()))); }

  static final Q REL = parse("1e-8"), ABS = parse("1e-10"), TINY = parse("1e-12");
  static boolean close(Q x, Q y, Q rel, Q abs) {
    if (x.nan() || y.nan()) return false;
    if (x.n.equals(y.n) && x.d.equals(y.d)) return true;
    double p = x.fast(), r = y.fast(), f = rel.fast(), h = abs.fast();
    if (p == p && r == r && f == f && h == h) {
      double g = Math.abs(p - r), t = f * Math.max(Math.abs(p), Math.abs(r)) + h, e = 1e-13 * (Math.abs(p) + Math.abs(r));
      if (g + e < t) return true;
      if (g - e > t) return false;
    }
    Q d = x.sub(y).abs(), m = x.abs(), k = y.abs();
    if (m.cmp(k) < 0) m = k;
    return d.cmp(rel.mul(m).add(abs)) <= 0;
  }
  static boolean isAny(Value v) { return v instanceof StringValue && ((StringValue) v).val.toString().equals("any"); }
  static Q maxabs(Value v) {
    if (v instanceof StringValue || v instanceof IntValue) { Q x = q(v); return x.nan() ? Q0 : x.abs(); }
    Q m = Q0; for (Value x : seq(v)) { Q y = maxabs(x); if (y.cmp(m) > 0) m = y; } return m;
  }
  static boolean match(Value a, Value c, Q rel, Q abs) {
    if (isAny(a) || isAny(c)) return true;
    if (a instanceof StringValue || a instanceof IntValue) {
      if (!(c instanceof StringValue || c instanceof IntValue)) return false;
      if (a.equals(c)) return true;
      return close(q(a), q(c), rel, abs);
    }
    if (c instanceof StringValue || c instanceof IntValue) return false;
    Value[] x = seq(a), y = seq(c);
    if (x.length != y.length) return false;
    for (int i = 0; i < x.length; i++) if (!match(x[i], y[i], rel, abs)) return false;
    return true;
  }
  /** Nested sequences of numbers agree: same shape, every leaf within 1e-8 relative or 1e-10 of the largest magnitude. */
  public static Value RMatch(Value a, Value c) {
    Q m = maxabs(a), k = maxabs(c); if (m.cmp(k) < 0) m = k;
    return b(match(a, c, REL, ABS.mul(m).add(TINY)));
  }
  /** As RMatch with caller-chosen relative tolerance. */
  public static Value RMatchTol(Value a, Value c, Value tol) {
    Q m = maxabs(a), k = maxabs(c); if (m.cmp(k) < 0) m = k; Q t = q(tol);
    return b(match(a, c, t, t.mul(m).mul(parse("1e-2")).add(TINY)));
  }
}
