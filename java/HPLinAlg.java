import java.math.*;
import tlc2.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** Evaluates the operators of HPLinAlg.tla (vectors and matrices are tuples of reals). */
public class HPLinAlg {
  static final MathContext MC = RealValue.MC;

  static BigDecimal[] vec(Value a) {
    TupleValue t = (TupleValue) a.toTuple();
    if (t == null) throw new RuntimeException("not a vector: " + a);
    BigDecimal[] r = new BigDecimal[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = RealValue.of(t.elems[i]);
    return r;
  }
  static BigDecimal[][] mat(Value a) {
    TupleValue t = (TupleValue) a.toTuple();
    if (t == null) throw new RuntimeException("not a matrix: " + a);
    BigDecimal[][] r = new BigDecimal[t.elems.length][];
    for (int i = 0; i < r.length; i++) r[i] = vec(t.elems[i]);
    return r;
  }
  static Value v(BigDecimal[] x) {
    Value[] e = new Value[x.length];
    for (int i = 0; i < e.length; i++) e[i] = new RealValue(x[i]);
    return new TupleValue(e);
  }
  static Value m(BigDecimal[][] x) {
    Value[] e = new Value[x.length];
    for (int i = 0; i < e.length; i++) e[i] = v(x[i]);
    return new TupleValue(e);
  }
  interface Op2 { BigDecimal f(BigDecimal a, BigDecimal b); }
  static BigDecimal[] zip(BigDecimal[] a, BigDecimal[] b, Op2 f) {
    if (a.length != b.length) throw new RuntimeException("vector lengths differ");
    BigDecimal[] r = new BigDecimal[a.length];
    for (int i = 0; i < r.length; i++) r[i] = f.f(a[i], b[i]);
    return r;
  }
  static BigDecimal[][] zip(BigDecimal[][] a, BigDecimal[][] b, Op2 f) {
    if (a.length != b.length) throw new RuntimeException("matrix sizes differ");
    BigDecimal[][] r = new BigDecimal[a.length][];
    for (int i = 0; i < r.length; i++) r[i] = zip(a[i], b[i], f);
    return r;
  }

  public static Value VAdd(Value a, Value b) { return v(zip(vec(a), vec(b), (x, y) -> x.add(y, MC))); }
  public static Value VSub(Value a, Value b) { return v(zip(vec(a), vec(b), (x, y) -> x.subtract(y, MC))); }
  public static Value VMul(Value a, Value b) { return v(zip(vec(a), vec(b), (x, y) -> x.multiply(y, MC))); }
  public static Value VScale(Value c, Value a) {
    BigDecimal k = RealValue.of(c); BigDecimal[] x = vec(a);
    for (int i = 0; i < x.length; i++) x[i] = x[i].multiply(k, MC);
    return v(x);
  }
  public static Value VDot(Value a, Value b) { return new RealValue(dot(vec(a), vec(b))); }
  static BigDecimal dot(BigDecimal[] x, BigDecimal[] y) {
    if (x.length != y.length) throw new RuntimeException("vector lengths differ");
    BigDecimal s = BigDecimal.ZERO;
    for (int i = 0; i < x.length; i++) s = s.add(x[i].multiply(y[i], MC), MC);
    return s;
  }
  public static Value VSum(Value a) {
    BigDecimal s = BigDecimal.ZERO;
    for (BigDecimal x : vec(a)) s = s.add(x, MC);
    return new RealValue(s);
  }
  public static Value Outer(Value a, Value b) {
    BigDecimal[] x = vec(a), y = vec(b);
    BigDecimal[][] r = new BigDecimal[x.length][y.length];
    for (int i = 0; i < x.length; i++) for (int j = 0; j < y.length; j++) r[i][j] = x[i].multiply(y[j], MC);
    return m(r);
  }
  public static Value MAdd(Value a, Value b) { return m(zip(mat(a), mat(b), (x, y) -> x.add(y, MC))); }
  public static Value MSub(Value a, Value b) { return m(zip(mat(a), mat(b), (x, y) -> x.subtract(y, MC))); }
  public static Value MHad(Value a, Value b) { return m(zip(mat(a), mat(b), (x, y) -> x.multiply(y, MC))); }
  public static Value MScale(Value c, Value a) {
    BigDecimal k = RealValue.of(c); BigDecimal[][] x = mat(a);
    for (BigDecimal[] row : x) for (int i = 0; i < row.length; i++) row[i] = row[i].multiply(k, MC);
    return m(x);
  }
  /** (1 - c) A + c B */
  public static Value MMix(Value c, Value a, Value b) {
    BigDecimal k = RealValue.of(c), q = BigDecimal.ONE.subtract(k);
    return m(zip(mat(a), mat(b), (x, y) -> x.multiply(q, MC).add(y.multiply(k, MC), MC)));
  }
  public static Value VMix(Value c, Value a, Value b) {
    BigDecimal k = RealValue.of(c), q = BigDecimal.ONE.subtract(k);
    return v(zip(vec(a), vec(b), (x, y) -> x.multiply(q, MC).add(y.multiply(k, MC), MC)));
  }
  static BigDecimal[][] tr(BigDecimal[][] a) {
    BigDecimal[][] r = new BigDecimal[a[0].length][a.length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < a[0].length; j++) r[j][i] = a[i][j];
    return r;
  }
  static BigDecimal[][] mul(BigDecimal[][] a, BigDecimal[][] b) {
    BigDecimal[][] bt = tr(b);
    BigDecimal[][] r = new BigDecimal[a.length][bt.length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < bt.length; j++) r[i][j] = dot(a[i], bt[j]);
    return r;
  }
  public static Value MTrans(Value a) { return m(tr(mat(a))); }
  public static Value MMul(Value a, Value b) { return m(mul(mat(a), mat(b))); }
  public static Value MVec(Value a, Value b) {
    BigDecimal[][] x = mat(a); BigDecimal[] y = vec(b);
    BigDecimal[] r = new BigDecimal[x.length];
    for (int i = 0; i < r.length; i++) r[i] = dot(x[i], y);
    return v(r);
  }
  public static Value MTrace(Value a) {
    BigDecimal[][] x = mat(a); BigDecimal s = BigDecimal.ZERO;
    for (int i = 0; i < x.length; i++) s = s.add(x[i][i], MC);
    return new RealValue(s);
  }
  public static Value MDiag(Value a) {
    BigDecimal[][] x = mat(a); BigDecimal[] r = new BigDecimal[x.length];
    for (int i = 0; i < x.length; i++) r[i] = x[i][i];
    return v(r);
  }
  public static Value DiagM(Value a) {
    BigDecimal[] x = vec(a); BigDecimal[][] r = zero(x.length, x.length);
    for (int i = 0; i < x.length; i++) r[i][i] = x[i];
    return m(r);
  }
  static BigDecimal[][] zero(int n, int k) {
    BigDecimal[][] r = new BigDecimal[n][k];
    for (BigDecimal[] row : r) java.util.Arrays.fill(row, BigDecimal.ZERO);
    return r;
  }
  public static Value MZero(Value n, Value k) { return m(zero(((IntValue) n).val, ((IntValue) k).val)); }
  public static Value VZero(Value n) { return v(zero(1, ((IntValue) n).val)[0]); }
  public static Value VOnes(Value n) {
    BigDecimal[] r = new BigDecimal[((IntValue) n).val];
    java.util.Arrays.fill(r, BigDecimal.ONE);
    return v(r);
  }
  static BigDecimal[][] eye(int n) {
    BigDecimal[][] r = zero(n, n);
    for (int i = 0; i < n; i++) r[i][i] = BigDecimal.ONE;
    return r;
  }
  public static Value MEye(Value n) { return m(eye(((IntValue) n).val)); }
  static int[] idx(Value a) {
    TupleValue t = (TupleValue) a.toTuple();
    int[] r = new int[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = ((IntValue) t.elems[i]).val - 1;
    return r;
  }
  public static Value MSel(Value a, Value rows, Value cols) {
    BigDecimal[][] x = mat(a); int[] ri = idx(rows), ci = idx(cols);
    BigDecimal[][] r = new BigDecimal[ri.length][ci.length];
    for (int i = 0; i < ri.length; i++) for (int j = 0; j < ci.length; j++) r[i][j] = x[ri[i]][ci[j]];
    return m(r);
  }
  /** A with the entries at rows x cols replaced by B. */
  public static Value MPut(Value a, Value rows, Value cols, Value b) {
    BigDecimal[][] x = mat(a), y = mat(b); int[] ri = idx(rows), ci = idx(cols);
    for (int i = 0; i < ri.length; i++) for (int j = 0; j < ci.length; j++) x[ri[i]][ci[j]] = y[i][j];
    return m(x);
  }
  public static Value MaxAbs(Value a) {
    BigDecimal s = BigDecimal.ZERO;
    for (BigDecimal[] row : mat(a)) for (BigDecimal x : row) s = s.max(x.abs());
    return new RealValue(s);
  }
  public static Value MSumSq(Value a) {
    BigDecimal s = BigDecimal.ZERO;
    for (BigDecimal[] row : mat(a)) for (BigDecimal x : row) s = s.add(x.multiply(x, MC), MC);
    return new RealValue(s);
  }
  public static Value MInv(Value a) {
    BigDecimal[][] r = inv(mat(a));
    if (r == null) throw new RuntimeException("inverse of a singular matrix");
    return m(r);
  }
  static BigDecimal[][] inv(BigDecimal[][] x) {
    int n = x.length;
    BigDecimal[][] a = new BigDecimal[n][2 * n];
    for (int i = 0; i < n; i++) for (int j = 0; j < 2 * n; j++)
      a[i][j] = j < n ? x[i][j] : (j - n == i ? BigDecimal.ONE : BigDecimal.ZERO);
    for (int c = 0; c < n; c++) {
      int p = c;
      for (int i = c + 1; i < n; i++) if (a[i][c].abs().compareTo(a[p][c].abs()) > 0) p = i;
      if (a[p][c].signum() == 0) return null;
      BigDecimal[] t = a[p]; a[p] = a[c]; a[c] = t;
      BigDecimal piv = a[c][c];
      for (int j = 0; j < 2 * n; j++) a[c][j] = a[c][j].divide(piv, MC);
      for (int i = 0; i < n; i++) if (i != c && a[i][c].signum() != 0) {
        BigDecimal f = a[i][c];
        for (int j = 0; j < 2 * n; j++) a[i][j] = a[i][j].subtract(f.multiply(a[c][j], MC), MC);
      }
    }
    BigDecimal[][] r = new BigDecimal[n][n];
    for (int i = 0; i < n; i++) System.arraycopy(a[i], n, r[i], 0, n);
    return r;
  }
  public static Value MDet(Value a) {
    BigDecimal[][] x = mat(a); int n = x.length; BigDecimal det = BigDecimal.ONE;
    for (int c = 0; c < n; c++) {
      int p = c;
      for (int i = c + 1; i < n; i++) if (x[i][c].abs().compareTo(x[p][c].abs()) > 0) p = i;
      if (x[p][c].signum() == 0) return new RealValue(BigDecimal.ZERO);
      if (p != c) { BigDecimal[] t = x[p]; x[p] = x[c]; x[c] = t; det = det.negate(); }
      det = det.multiply(x[c][c], MC);
      for (int i = c + 1; i < n; i++) {
        BigDecimal f = x[i][c].divide(x[c][c], MC);
        for (int j = c; j < n; j++) x[i][j] = x[i][j].subtract(f.multiply(x[c][j], MC), MC);
      }
    }
    return new RealValue(det);
  }
  /** Cyclic Jacobi: [vals |-> eigenvalues ascending, vecs |-> matching orthonormal columns]. */
  public static Value SymEig(Value a) {
    BigDecimal[][] x = mat(a); int n = x.length;
    BigDecimal[][] q = eye(n);
    BigDecimal tot = BigDecimal.ZERO;
    for (BigDecimal[] row : x) for (BigDecimal e : row) tot = tot.add(e.multiply(e, MC), MC);
    BigDecimal thr = tot.multiply(new BigDecimal("1e-92"), MC);
    for (int sweep = 0; sweep < 60; sweep++) {
      BigDecimal off = BigDecimal.ZERO;
      for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) off = off.add(x[i][j].multiply(x[i][j], MC), MC);
      if (off.compareTo(thr) <= 0) break;
      for (int p = 0; p < n; p++) for (int r = p + 1; r < n; r++) {
        BigDecimal apr = x[p][r];
        if (apr.signum() == 0) continue;
        BigDecimal theta = x[r][r].subtract(x[p][p], MC).divide(apr.multiply(HPReal.TWO, MC), MC);
        BigDecimal t = BigDecimal.ONE.divide(
            theta.abs().add(HPReal.sqrt(theta.multiply(theta, MC).add(BigDecimal.ONE, MC)), MC), MC);
        if (theta.signum() < 0) t = t.negate();
        BigDecimal c = BigDecimal.ONE.divide(HPReal.sqrt(t.multiply(t, MC).add(BigDecimal.ONE, MC)), MC);
        BigDecimal s = t.multiply(c, MC);
        for (int k = 0; k < n; k++) {
          BigDecimal u = x[k][p], w = x[k][r];
          x[k][p] = c.multiply(u, MC).subtract(s.multiply(w, MC), MC);
          x[k][r] = s.multiply(u, MC).add(c.multiply(w, MC), MC);
        }
        for (int k = 0; k < n; k++) {
          BigDecimal u = x[p][k], w = x[r][k];
          x[p][k] = c.multiply(u, MC).subtract(s.multiply(w, MC), MC);
          x[r][k] = s.multiply(u, MC).add(c.multiply(w, MC), MC);
        }
        for (int k = 0; k < n; k++) {
          BigDecimal u = q[k][p], w = q[k][r];
          q[k][p] = c.multiply(u, MC).subtract(s.multiply(w, MC), MC);
          q[k][r] = s.multiply(u, MC).add(c.multiply(w, MC), MC);
        }
      }
    }
    Integer[] o = new Integer[n];
    for (int i = 0; i < n; i++) o[i] = i;
    final BigDecimal[][] y = x;
    java.util.Arrays.sort(o, (i, j) -> y[i][i].compareTo(y[j][j]));
    BigDecimal[] vals = new BigDecimal[n];
    BigDecimal[][] vecs = new BigDecimal[n][n];
    for (int i = 0; i < n; i++) {
      vals[i] = x[o[i]][o[i]];
      for (int k = 0; k < n; k++) vecs[k][i] = q[k][o[i]];
    }
    return new RecordValue(
        new UniqueString[] {UniqueString.uniqueStringOf("vals"), UniqueString.uniqueStringOf("vecs")},
        new Value[] {v(vals), m(vecs)}, false);
  }
  /** vecs * diag(f) * vecs' */
  public static Value EigRebuild(Value f, Value vecs) {
    BigDecimal[] x = vec(f); BigDecimal[][] q = mat(vecs);
    int n = q.length;
    BigDecimal[][] r = zero(n, n);
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) {
      BigDecimal s = BigDecimal.ZERO;
      for (int k = 0; k < n; k++) s = s.add(q[i][k].multiply(q[j][k], MC).multiply(x[k], MC), MC);
      r[i][j] = s; r[j][i] = s;
    }
    return m(r);
  }
  public static Value IsFiniteM(Value a) {
    TupleValue t = (TupleValue) a.toTuple();
    if (t == null) return BoolValue.ValFalse;
    for (Value row : t.elems) if (IsFiniteV(row) == BoolValue.ValFalse) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value IsFiniteV(Value a) {
    TupleValue t = (TupleValue) a.toTuple();
    if (t == null) return BoolValue.ValFalse;
    for (Value e : t.elems) if (HPReal.RIsFinite(e) == BoolValue.ValFalse) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
}
