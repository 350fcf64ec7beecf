import tlc2.value.impl.*;
import tlc2.tool.EvalException;
import java.math.*;
import java.util.concurrent.ConcurrentHashMap;

/** Exact rational arithmetic for the TLA+ module Rat: TLC loads this class by the module's name and
 *  overrides the operators of the same names.  A number is a TLA+ integer, or a string: "n", "n/d",
 *  a decimal "1.25", a hexadecimal float literal "0x1.8p-3" (Python float.hex()), "inf", "-inf" or "nan".
 *  Results are canonical strings.  nan propagates through arithmetic and makes every comparison false. */
public class Rat {
  static final class Q {
    final BigInteger n, d; final int sp; // sp: 0 finite, 1 +inf, -1 -inf, 2 nan
    Q(BigInteger n, BigInteger d) {
      if (d.signum() == 0) { this.n = n; this.d = d; this.sp = 2; return; }
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      BigInteger g = n.gcd(d);
      if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
      this.n = n; this.d = d; this.sp = 0;
    }
    Q(int sp) { this.n = BigInteger.ZERO; this.d = BigInteger.ONE; this.sp = sp; }
    public String toString() {
      if (sp == 1) return "inf"; if (sp == -1) return "-inf"; if (sp == 2) return "nan";
      return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d;
    }
    double dbl() {
      if (sp == 1) return Double.POSITIVE_INFINITY; if (sp == -1) return Double.NEGATIVE_INFINITY;
      if (sp == 2) return Double.NaN;
      return new BigDecimal(n).divide(new BigDecimal(d), new MathContext(40)).doubleValue();
    }
  }
  static final Q NAN = new Q(2), INF = new Q(1), NINF = new Q(-1);
  static final ConcurrentHashMap<String, Q> cache = new ConcurrentHashMap<>();

  static Q ofDouble(double x) {
    if (Double.isNaN(x)) return NAN;
    if (Double.isInfinite(x)) return x > 0 ? INF : NINF;
    BigDecimal b = new BigDecimal(x);
    BigInteger u = b.unscaledValue();
    return b.scale() >= 0 ? new Q(u, BigInteger.TEN.pow(b.scale())) : new Q(u.multiply(BigInteger.TEN.pow(-b.scale())), BigInteger.ONE);
  }
  static Q parse(String s) {
    Q c = cache.get(s);
    if (c != null) return c;
    Q r;
    try {
      if (s.equals("inf") || s.equals("+inf")) r = INF;
      else if (s.equals("-inf")) r = NINF;
      else if (s.equals("nan")) r = NAN;
      else if (s.contains("0x")) r = ofDouble(Double.parseDouble(s));
      else if (s.indexOf('/') >= 0) { int i = s.indexOf('/'); r = new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1))); }
      else if (s.indexOf('.') >= 0 || s.indexOf('e') >= 0 || s.indexOf('E') >= 0) {
        BigDecimal b = new BigDecimal(s); BigInteger u = b.unscaledValue();
        r = b.scale() >= 0 ? new Q(u, BigInteger.TEN.pow(b.scale())) : new Q(u.multiply(BigInteger.TEN.pow(-b.scale())), BigInteger.ONE);
      } else r = new Q(new BigInteger(s), BigInteger.ONE);
    } catch (NumberFormatException e) { r = null; }
    if (r == null) return null;
    if (cache.size() < 2000000) cache.put(s, r);
    return r;
  }
  static Q q(Value v) {
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    if (v instanceof StringValue) { Q r = parse(((StringValue) v).val.toString()); return r == null ? NAN : r; }
    return NAN; // whatever else the code answered is not a number
  }
  static Value w(Q x) { String s = x.toString(); if (cache.size() < 2000000) cache.put(s, x); return new StringValue(s); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static Q add(Q a, Q c) {
    if (a.sp == 2 || c.sp == 2) return NAN;
    if (a.sp != 0) return c.sp == -a.sp ? NAN : a;
    if (c.sp != 0) return c;
    return new Q(a.n.multiply(c.d).add(c.n.multiply(a.d)), a.d.multiply(c.d));
  }
  static Q neg(Q a) { return a.sp == 2 ? NAN : a.sp == 1 ? NINF : a.sp == -1 ? INF : new Q(a.n.negate(), a.d); }
  static int sgn(Q a) { return a.sp == 2 ? 0 : a.sp != 0 ? a.sp : a.n.signum(); }
  static Q mul(Q a, Q c) {
    if (a.sp == 2 || c.sp == 2) return NAN;
    if (a.sp != 0 || c.sp != 0) { int s = sgn(a) * sgn(c); return s == 0 ? NAN : s > 0 ? INF : NINF; }
    return new Q(a.n.multiply(c.n), a.d.multiply(c.d));
  }
  static Q div(Q a, Q c) {
    if (a.sp == 2 || c.sp == 2) return NAN;
    if (c.sp != 0) return a.sp != 0 ? NAN : new Q(BigInteger.ZERO, BigInteger.ONE);
    if (c.n.signum() == 0) return NAN;
    if (a.sp != 0) return c.n.signum() > 0 ? a : neg(a);
    return new Q(a.n.multiply(c.d), a.d.multiply(c.n));
  }
  static int cmp(Q a, Q c) { // neither nan
    if (a.sp != 0 || c.sp != 0) return Integer.compare(a.sp, c.sp);
    return a.n.multiply(c.d).compareTo(c.n.multiply(a.d));
  }
  static boolean num(Q a, Q c) { return a.sp != 2 && c.sp != 2; }

  public static Value RAdd(Value a, Value c) { return w(add(q(a), q(c))); }
  public static Value RSub(Value a, Value c) { return w(add(q(a), neg(q(c)))); }
  public static Value RMul(Value a, Value c) { return w(mul(q(a), q(c))); }
  public static Value RDiv(Value a, Value c) { return w(div(q(a), q(c))); }
  public static Value RNeg(Value a) { return w(neg(q(a))); }
  public static Value RAbs(Value a) { Q x = q(a); return w(sgn(x) < 0 ? neg(x) : x); }
  public static Value RLt(Value a, Value c) { Q x = q(a), y = q(c); return b(num(x, y) && cmp(x, y) < 0); }
  public static Value RLe(Value a, Value c) { Q x = q(a), y = q(c); return b(num(x, y) && cmp(x, y) <= 0); }
  public static Value REq(Value a, Value c) { Q x = q(a), y = q(c); return b(num(x, y) && cmp(x, y) == 0); }
  public static Value RMin(Value a, Value c) { Q x = q(a), y = q(c); return w(!num(x, y) ? NAN : cmp(x, y) <= 0 ? x : y); }
  public static Value RMax(Value a, Value c) { Q x = q(a), y = q(c); return w(!num(x, y) ? NAN : cmp(x, y) >= 0 ? x : y); }
  public static Value RSgn(Value a) { return IntValue.gen(sgn(q(a))); }
  public static Value RIsNum(Value a) {
    if (a instanceof IntValue) return b(true);
    if (!(a instanceof StringValue)) return b(false);
    Q x = parse(((StringValue) a).val.toString()); return b(x != null && x.sp == 0);
  }
  public static Value RCanon(Value a) { return w(q(a)); }
  static BigInteger floor(Q x) { BigInteger[] r = x.n.divideAndRemainder(x.d); return r[1].signum() < 0 ? r[0].subtract(BigInteger.ONE) : r[0]; }
  static Value toInt(BigInteger i) {
    if (i.bitLength() > 31) throw new EvalException(tlc2.output.EC.GENERAL, "Rat: integer too large for TLC: " + i);
    return IntValue.gen(i.intValue());
  }
  public static Value RFloor(Value a) { Q x = q(a); if (x.sp != 0) throw new EvalException(tlc2.output.EC.GENERAL, "Rat: RFloor of " + x); return toInt(floor(x)); }
  public static Value RCeil(Value a) { Q x = q(a); if (x.sp != 0) throw new EvalException(tlc2.output.EC.GENERAL, "Rat: RCeil of " + x); return toInt(floor(neg(x)).negate()); }
  public static Value RPow(Value a, Value k) {
    Q x = q(a); int e = ((IntValue) k).val;
    if (x.sp != 0) return w(NAN);
    return w(e >= 0 ? new Q(x.n.pow(e), x.d.pow(e)) : new Q(x.d.pow(-e), x.n.pow(-e)));
  }
  /** nearest multiple of 2^-bits: keeps denominators small in long computations */
  public static Value RRound(Value a, Value bits) {
    Q x = q(a); if (x.sp != 0) return w(x);
    BigInteger s = BigInteger.ONE.shiftLeft(((IntValue) bits).val);
    Q y = new Q(x.n.multiply(s).multiply(BigInteger.TWO).add(x.d), x.d.multiply(BigInteger.TWO));
    return w(new Q(floor(y), s));
  }
  /** square root: exact when the argument is a rational square, else correct to 2^-100 relative */
  public static Value RSqrt(Value a) {
    Q x = q(a);
    if (x.sp == 1) return w(INF);
    if (x.sp != 0 || x.n.signum() < 0) return w(NAN);
    BigInteger p = x.n.multiply(x.d), r = p.sqrt();
    if (r.multiply(r).equals(p)) return w(new Q(r, x.d));
    int sh = Math.max(0, 220 - p.bitLength()); sh += sh & 1;
    r = p.shiftLeft(sh).sqrt();
    return w(new Q(r, x.d.shiftLeft(sh / 2)));
  }
  // elementary functions, correct to about one ulp of a double
  public static Value RSin(Value a) { return w(ofDouble(StrictMath.sin(q(a).dbl()))); }
  public static Value RCos(Value a) { return w(ofDouble(StrictMath.cos(q(a).dbl()))); }
  public static Value RTan(Value a) { return w(ofDouble(StrictMath.tan(q(a).dbl()))); }
  public static Value RAcos(Value a) { return w(ofDouble(StrictMath.acos(q(a).dbl()))); }
  public static Value RAtan2(Value a, Value c) { return w(ofDouble(StrictMath.atan2(q(a).dbl(), q(c).dbl()))); }
  public static Value RExp(Value a) { return w(ofDouble(StrictMath.exp(q(a).dbl()))); }
  public static Value RLn(Value a) { return w(ofDouble(StrictMath.log(q(a).dbl()))); }
  public static Value RPowR(Value a, Value c) { return w(ofDouble(StrictMath.pow(q(a).dbl(), q(c).dbl()))); }
}
