import java.math.*;
import tlc2.value.impl.*;

/** Evaluates the operators of HPReal.tla with 50-digit arithmetic. */
public class HPReal {
  static final MathContext MC = RealValue.MC;
  static BigDecimal d(Value a) { return RealValue.of(a); }
  static Value w(BigDecimal b) { return new RealValue(b); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value R(Value a) { return w(d(a)); }
  public static Value RAdd(Value a, Value b) { return w(d(a).add(d(b), MC)); }
  public static Value RSub(Value a, Value b) { return w(d(a).subtract(d(b), MC)); }
  public static Value RMul(Value a, Value b) { return w(d(a).multiply(d(b), MC)); }
  public static Value RDiv(Value a, Value b) { return w(d(a).divide(d(b), MC)); }
  public static Value RNeg(Value a) { return w(d(a).negate()); }
  public static Value RAbs(Value a) { return w(d(a).abs()); }
  public static Value RLeq(Value a, Value b) { return bool(d(a).compareTo(d(b)) <= 0); }
  public static Value RLt(Value a, Value b) { return bool(d(a).compareTo(d(b)) < 0); }
  public static Value REq(Value a, Value b) { return bool(d(a).compareTo(d(b)) == 0); }
  public static Value RMax(Value a, Value b) { return w(d(a).max(d(b))); }
  public static Value RMin(Value a, Value b) { return w(d(a).min(d(b))); }
  public static Value RSqrt(Value a) { return w(sqrt(d(a))); }
  public static Value RExp(Value a) { return w(exp(d(a))); }
  public static Value RLn(Value a) { return w(ln(d(a))); }
  public static Value RPi() { return w(PI); }
  public static Value RCeil(Value a) {
    BigDecimal c = d(a).setScale(0, RoundingMode.CEILING);
    BigDecimal m = BigDecimal.valueOf(Integer.MAX_VALUE);
    return IntValue.gen(c.min(m).max(m.negate()).intValueExact());
  }
  /** The string is the literal of a finite number (recorded floats may be "inf" or "nan"). */
  public static Value RIsFinite(Value a) {
    if (a instanceof RealValue || a instanceof IntValue) return BoolValue.ValTrue;
    if (!(a instanceof StringValue)) return BoolValue.ValFalse;
    String s = ((StringValue) a).val.toString();
    return bool(!(s.contains("inf") || s.contains("nan")));
  }
  public static Value RStr(Value a) {
    return new StringValue(d(a).round(new MathContext(10)).toString());
  }

  static final BigDecimal PI = new BigDecimal(
      "3.14159265358979323846264338327950288419716939937510582097494459230781640628620899863");
  static final BigDecimal LN2 = new BigDecimal(
      "0.693147180559945309417232121458176568075500134360255254120680009493393621969694715605863326996418687");
  static final BigDecimal TWO = BigDecimal.valueOf(2);
  static final MathContext MX = new MathContext(60, RoundingMode.HALF_EVEN);

  static BigDecimal sqrt(BigDecimal x) {
    if (x.signum() == 0) return BigDecimal.ZERO;
    if (x.signum() < 0) throw new RuntimeException("square root of a negative number: " + x);
    return x.sqrt(MC);
  }
  static BigDecimal exp(BigDecimal x) {
    if (x.signum() == 0) return BigDecimal.ONE;
    // x = k ln2 + f; exp(f) by halving and Taylor
    BigDecimal k = x.divide(LN2, MX).setScale(0, RoundingMode.HALF_EVEN);
    BigDecimal f = x.subtract(k.multiply(LN2), MX);
    int h = 8;
    BigDecimal y = f.divide(BigDecimal.valueOf(1 << h), MX);
    BigDecimal sum = BigDecimal.ONE, term = BigDecimal.ONE;
    for (int i = 1; i < 60; i++) {
      term = term.multiply(y, MX).divide(BigDecimal.valueOf(i), MX);
      if (term.signum() == 0) break;
      sum = sum.add(term, MX);
      if (term.abs().compareTo(new BigDecimal("1e-62")) < 0) break;
    }
    for (int i = 0; i < h; i++) sum = sum.multiply(sum, MX);
    int n = k.intValueExact();
    BigDecimal p2 = TWO.pow(Math.abs(n), MX);
    return n >= 0 ? sum.multiply(p2, MC) : sum.divide(p2, MC);
  }
  static BigDecimal ln(BigDecimal x) {
    if (x.signum() <= 0) throw new RuntimeException("logarithm of a non-positive number: " + x);
    // x = m * 2^k with m near 1, then Newton-free atanh series on (m-1)/(m+1)
    int k = 0;
    int e10 = x.precision() - x.scale() - 1;
    k = (int) Math.round(e10 / 0.30102999566398120);
    BigDecimal p2 = TWO.pow(Math.abs(k), MX);
    BigDecimal m = k >= 0 ? x.divide(p2, MX) : x.multiply(p2, MX);
    BigDecimal hi = new BigDecimal("1.4142135"), lo = new BigDecimal("0.70710678");
    while (m.compareTo(hi) > 0) { m = m.divide(TWO, MX); k++; }
    while (m.compareTo(lo) < 0) { m = m.multiply(TWO, MX); k--; }
    int roots = 0;
    while (m.subtract(BigDecimal.ONE).abs().compareTo(new BigDecimal("0.01")) > 0) { m = m.sqrt(MX); roots++; }
    BigDecimal z = m.subtract(BigDecimal.ONE).divide(m.add(BigDecimal.ONE), MX);
    BigDecimal z2 = z.multiply(z, MX), t = z, s = z;
    for (int i = 3; i < 80; i += 2) {
      t = t.multiply(z2, MX);
      if (t.signum() == 0) break;
      BigDecimal q = t.divide(BigDecimal.valueOf(i), MX);
      s = s.add(q, MX);
      if (q.abs().compareTo(new BigDecimal("1e-64")) < 0) break;
    }
    s = s.multiply(TWO).multiply(TWO.pow(roots), MX);
    return s.add(LN2.multiply(BigDecimal.valueOf(k)), MC);
  }
}
