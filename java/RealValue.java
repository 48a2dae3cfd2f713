import java.math.*;
import tlc2.tool.FingerprintException;
import tlc2.util.FP64;
import tlc2.value.*;
import tlc2.value.impl.*;

/** A real number held with 50 significant digits, as a TLC value. */
public class RealValue extends Value {
  public static final MathContext MC = new MathContext(50, RoundingMode.HALF_EVEN);
  public final BigDecimal v;

  public RealValue(BigDecimal b) { this.v = b.round(MC); }

  /** Integers, decimal strings and hexadecimal floating-point literals all denote reals. */
  public static BigDecimal of(Object o) {
    if (o instanceof RealValue) return ((RealValue) o).v;
    if (o instanceof IntValue) return BigDecimal.valueOf(((IntValue) o).val);
    if (o instanceof StringValue) {
      String s = ((StringValue) o).val.toString();
      if (s.indexOf('x') >= 0) return new BigDecimal(Double.parseDouble(s)).round(MC);
      return new BigDecimal(s).round(MC);
    }
    throw new RuntimeException("not a real number: " + o);
  }

  @Override public byte getKind() { return USERVALUE; }
  @Override public int compareTo(Object o) { return v.compareTo(of(o)); }
  @Override public boolean equals(Object o) {
    return (o instanceof RealValue || o instanceof IntValue || o instanceof StringValue)
        && v.compareTo(of(o)) == 0;
  }
  @Override public boolean member(Value e) { throw new RuntimeException("a real is not a set"); }
  @Override public boolean isFinite() { throw new RuntimeException("a real is not a set"); }
  @Override public Value takeExcept(ValueExcept ex) {
    if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT into a real");
    return ex.value;
  }
  @Override public Value takeExcept(ValueExcept[] ex) {
    Value r = this;
    for (ValueExcept x : ex) r = x.idx < x.path.length ? takeExcept(x) : x.value;
    return r;
  }
  @Override public int size() { throw new RuntimeException("a real is not a set"); }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public boolean mutates() { return false; }
  @Override public long fingerPrint(long fp) {
    String s = v.signum() == 0 ? "0" : v.stripTrailingZeros().toString();
    return FP64.Extend(fp, s);
  }
  @Override public IValue permute(IMVPerm perm) { return this; }
  /** States that TLC spills to disk keep every digit: read back, the literal denotes the same real. */
  @Override public void write(IValueOutputStream vos) throws java.io.IOException {
    new StringValue(v.toString()).write(vos);
  }
  @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    return sb.append("\"").append(v.round(new MathContext(17)).toString()).append("\"");
  }
}
