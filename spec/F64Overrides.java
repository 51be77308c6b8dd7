import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Double arithmetic for the module F64. See F64.tla for the meaning of each operator. */
public class F64Overrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() {
    return new Class[] {F64Overrides.class};
  }

  private static final String M = "F64";

  static Value[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = (Value) v.toTuple();
    if (t == null) throw new RuntimeException("F64: not a tuple: " + v);
    return ((TupleValue) t).elems;
  }

  static double num(Value v) {
    Value[] e = elems(v);
    if (e.length != 2) throw new RuntimeException("F64: not a number: " + v);
    return bits(e, 0);
  }

  static double bits(Value[] e, int i) {
    long hi = ((IntValue) e[i]).val, lo = ((IntValue) e[i + 1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }

  static double[] vec(Value v) {
    Value[] e = elems(v);
    if (e.length % 2 != 0) throw new RuntimeException("F64: not a vector: " + v);
    double[] r = new double[e.length / 2];
    for (int i = 0; i < r.length; i++) r[i] = bits(e, 2 * i);
    return r;
  }

  static double[][] vecs(Value v) {
    Value[] e = elems(v);
    double[][] r = new double[e.length][];
    for (int i = 0; i < e.length; i++) r[i] = vec(e[i]);
    return r;
  }

  static double[] nums(Value v) {
    Value[] e = elems(v);
    double[] r = new double[e.length];
    for (int i = 0; i < e.length; i++) r[i] = num(e[i]);
    return r;
  }

  static Value mk(double... d) {
    Value[] e = new Value[2 * d.length];
    for (int i = 0; i < d.length; i++) {
      long b = Double.doubleToLongBits(d[i]);
      e[2 * i] = IntValue.gen((int) (b >> 32));
      e[2 * i + 1] = IntValue.gen((int) b);
    }
    return new TupleValue(e);
  }

  static Value bool(boolean b) {
    return b ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  static boolean same(double a, double b) {
    return a == b || (Double.isNaN(a) && Double.isNaN(b));
  }

  static boolean near(double a, double b, double at, double rt) {
    return same(a, b) || Math.abs(a - b) <= at + rt * Math.max(Math.abs(a), Math.abs(b));
  }

  static double min(double a, double b) {
    return Double.isNaN(a) ? b : Double.isNaN(b) ? a : Math.min(a, b);
  }

  static double max(double a, double b) {
    return Double.isNaN(a) ? b : Double.isNaN(b) ? a : Math.max(a, b);
  }

  // ---- numbers ----
  @TLAPlusOperator(identifier = "FLit", module = M, warn = false)
  public static Value FLit(StringValue s) {
    return mk(Double.parseDouble(s.val.toString()));
  }

  @TLAPlusOperator(identifier = "FInt", module = M, warn = false)
  public static Value FInt(IntValue i) {
    return mk(i.val);
  }

  @TLAPlusOperator(identifier = "FRat", module = M, warn = false)
  public static Value FRat(IntValue p, IntValue q) {
    return mk((double) p.val / (double) q.val);
  }

  @TLAPlusOperator(identifier = "FAdd", module = M, warn = false)
  public static Value FAdd(Value a, Value b) {
    return mk(num(a) + num(b));
  }

  @TLAPlusOperator(identifier = "FSub", module = M, warn = false)
  public static Value FSub(Value a, Value b) {
    return mk(num(a) - num(b));
  }

  @TLAPlusOperator(identifier = "FMul", module = M, warn = false)
  public static Value FMul(Value a, Value b) {
    return mk(num(a) * num(b));
  }

  @TLAPlusOperator(identifier = "FDiv", module = M, warn = false)
  public static Value FDiv(Value a, Value b) {
    return mk(num(a) / num(b));
  }

  @TLAPlusOperator(identifier = "FNeg", module = M, warn = false)
  public static Value FNeg(Value a) {
    return mk(-num(a));
  }

  @TLAPlusOperator(identifier = "FAbs", module = M, warn = false)
  public static Value FAbs(Value a) {
    return mk(Math.abs(num(a)));
  }

  @TLAPlusOperator(identifier = "FSqrt", module = M, warn = false)
  public static Value FSqrt(Value a) {
    return mk(Math.sqrt(num(a)));
  }

  @TLAPlusOperator(identifier = "FExp", module = M, warn = false)
  public static Value FExp(Value a) {
    return mk(Math.exp(num(a)));
  }

  @TLAPlusOperator(identifier = "FSin", module = M, warn = false)
  public static Value FSin(Value a) {
    return mk(Math.sin(num(a)));
  }

  @TLAPlusOperator(identifier = "FCos", module = M, warn = false)
  public static Value FCos(Value a) {
    return mk(Math.cos(num(a)));
  }

  @TLAPlusOperator(identifier = "FPow", module = M, warn = false)
  public static Value FPow(Value a, Value b) {
    return mk(Math.pow(num(a), num(b)));
  }

  @TLAPlusOperator(identifier = "FMin", module = M, warn = false)
  public static Value FMin(Value a, Value b) {
    return mk(min(num(a), num(b)));
  }

  @TLAPlusOperator(identifier = "FMax", module = M, warn = false)
  public static Value FMax(Value a, Value b) {
    return mk(max(num(a), num(b)));
  }

  @TLAPlusOperator(identifier = "FUlp", module = M, warn = false)
  public static Value FUlp(Value a) {
    return mk(Math.ulp(num(a)));
  }

  @TLAPlusOperator(identifier = "FLt", module = M, warn = false)
  public static Value FLt(Value a, Value b) {
    return bool(num(a) < num(b));
  }

  @TLAPlusOperator(identifier = "FLe", module = M, warn = false)
  public static Value FLe(Value a, Value b) {
    return bool(num(a) <= num(b));
  }

  @TLAPlusOperator(identifier = "FEq", module = M, warn = false)
  public static Value FEq(Value a, Value b) {
    return bool(num(a) == num(b));
  }

  @TLAPlusOperator(identifier = "FIsNaN", module = M, warn = false)
  public static Value FIsNaN(Value a) {
    return bool(Double.isNaN(num(a)));
  }

  @TLAPlusOperator(identifier = "FIsFin", module = M, warn = false)
  public static Value FIsFin(Value a) {
    return bool(Double.isFinite(num(a)));
  }

  @TLAPlusOperator(identifier = "FNear", module = M, warn = false)
  public static Value FNear(Value a, Value b, Value at, Value rt) {
    return bool(near(num(a), num(b), num(at), num(rt)));
  }

  @TLAPlusOperator(identifier = "FStr", module = M, warn = false)
  public static Value FStr(Value a) {
    return new StringValue(Double.toString(num(a)));
  }

  // ---- vectors ----
  @TLAPlusOperator(identifier = "VDim", module = M, warn = false)
  public static Value VDim(Value v) {
    return IntValue.gen(elems(v).length / 2);
  }

  @TLAPlusOperator(identifier = "VGet", module = M, warn = false)
  public static Value VGet(Value v, IntValue i) {
    Value[] e = elems(v);
    return new TupleValue(new Value[] {e[2 * i.val - 2], e[2 * i.val - 1]});
  }

  @TLAPlusOperator(identifier = "VMk", module = M, warn = false)
  public static Value VMk(Value seq) {
    return mk(nums(seq));
  }

  @TLAPlusOperator(identifier = "VZero", module = M, warn = false)
  public static Value VZero(IntValue n) {
    return mk(new double[n.val]);
  }

  static int len(double[] a, double[] b) {
    if (a.length != b.length) throw new RuntimeException("F64: lengths differ");
    return a.length;
  }

  @TLAPlusOperator(identifier = "VAdd", module = M, warn = false)
  public static Value VAdd(Value v, Value w) {
    double[] a = vec(v), b = vec(w);
    for (int i = 0; i < len(a, b); i++) a[i] += b[i];
    return mk(a);
  }

  @TLAPlusOperator(identifier = "VSub", module = M, warn = false)
  public static Value VSub(Value v, Value w) {
    double[] a = vec(v), b = vec(w);
    for (int i = 0; i < len(a, b); i++) a[i] -= b[i];
    return mk(a);
  }

  @TLAPlusOperator(identifier = "VScale", module = M, warn = false)
  public static Value VScale(Value s, Value v) {
    double[] a = vec(v);
    double c = num(s);
    for (int i = 0; i < a.length; i++) a[i] *= c;
    return mk(a);
  }

  @TLAPlusOperator(identifier = "VAbs", module = M, warn = false)
  public static Value VAbs(Value v) {
    double[] a = vec(v);
    for (int i = 0; i < a.length; i++) a[i] = Math.abs(a[i]);
    return mk(a);
  }

  @TLAPlusOperator(identifier = "VMaxV", module = M, warn = false)
  public static Value VMaxV(Value v, Value w) {
    double[] a = vec(v), b = vec(w);
    for (int i = 0; i < len(a, b); i++) a[i] = max(a[i], b[i]);
    return mk(a);
  }

  static double[] lin(double[] cs, double[][] vs, boolean abs) {
    double[] r = new double[vs[0].length];
    for (int j = 0; j < vs.length; j++)
      for (int i = 0; i < r.length && cs[j] != 0; i++)
        r[i] += abs ? Math.abs(cs[j] * vs[j][i]) : cs[j] * vs[j][i];
    return r;
  }

  @TLAPlusOperator(identifier = "VLin", module = M, warn = false)
  public static Value VLin(Value cs, Value vs) {
    return mk(lin(nums(cs), vecs(vs), false));
  }

  @TLAPlusOperator(identifier = "VAxpy", module = M, warn = false)
  public static Value VAxpy(Value u, Value h, Value cs, Value vs) {
    double[] r = lin(nums(cs), vecs(vs), false), b = vec(u);
    double c = num(h);
    for (int i = 0; i < len(r, b); i++) r[i] = b[i] + c * r[i];
    return mk(r);
  }

  @TLAPlusOperator(identifier = "VAxpyTol", module = M, warn = false)
  public static Value VAxpyTol(Value u, Value h, Value cs, Value vs) {
    double[] r = lin(nums(cs), vecs(vs), true), b = vec(u);
    double c = Math.abs(num(h));
    for (int i = 0; i < len(r, b); i++) r[i] = Math.abs(b[i]) + c * r[i];
    return mk(r);
  }

  @TLAPlusOperator(identifier = "VEq", module = M, warn = false)
  public static Value VEq(Value v, Value w) {
    double[] a = vec(v), b = vec(w);
    if (a.length != b.length) return BoolValue.ValFalse;
    for (int i = 0; i < a.length; i++) if (!same(a[i], b[i])) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }

  @TLAPlusOperator(identifier = "VIsFin", module = M, warn = false)
  public static Value VIsFin(Value v) {
    for (double x : vec(v)) if (!Double.isFinite(x)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }

  @TLAPlusOperator(identifier = "VNear", module = M, warn = false)
  public static Value VNear(Value v, Value w, Value at, Value rt) {
    double[] a = vec(v), b = vec(w);
    if (a.length != b.length) return BoolValue.ValFalse;
    double x = num(at), y = num(rt);
    for (int i = 0; i < a.length; i++) if (!near(a[i], b[i], x, y)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }

  @TLAPlusOperator(identifier = "VNearV", module = M, warn = false)
  public static Value VNearV(Value v, Value w, Value tol) {
    double[] a = vec(v), b = vec(w), c = vec(tol);
    if (a.length != b.length) return BoolValue.ValFalse;
    for (int i = 0; i < a.length; i++) if (!near(a[i], b[i], c[i], 0)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }

  @TLAPlusOperator(identifier = "VMaxAbs", module = M, warn = false)
  public static Value VMaxAbs(Value v) {
    double r = 0;
    for (double x : vec(v)) r = Double.isNaN(x) ? x : Math.max(r, Math.abs(x));
    return mk(r);
  }

  @TLAPlusOperator(identifier = "VMean2", module = M, warn = false)
  public static Value VMean2(Value v, Value s) {
    double[] a = vec(v), b = vec(s);
    double r = 0;
    for (int i = 0; i < len(a, b); i++) {
      double q = a[i] / b[i];
      r += q * q;
    }
    return mk(Math.sqrt(r / a.length));
  }

  @TLAPlusOperator(identifier = "VScal", module = M, warn = false)
  public static Value VScal(Value atol, Value rtol, Value v) {
    double[] a = vec(v);
    double x = num(atol), y = num(rtol);
    for (int i = 0; i < a.length; i++) a[i] = x + y * Math.abs(a[i]);
    return mk(a);
  }

  @TLAPlusOperator(identifier = "VDot", module = M, warn = false)
  public static Value VDot(Value v, Value w) {
    double[] a = vec(v), b = vec(w);
    double r = 0;
    for (int i = 0; i < len(a, b); i++) r += a[i] * b[i];
    return mk(r);
  }

  @TLAPlusOperator(identifier = "VCat", module = M, warn = false)
  public static Value VCat(Value v, Value w) {
    Value[] a = elems(v), b = elems(w);
    Value[] r = new Value[a.length + b.length];
    System.arraycopy(a, 0, r, 0, a.length);
    System.arraycopy(b, 0, r, a.length, b.length);
    return new TupleValue(r);
  }

  // ---- matrices ----
  static int dim(double[] m) {
    int n = (int) Math.round(Math.sqrt(m.length));
    if (n * n != m.length) throw new RuntimeException("F64: not a square matrix");
    return n;
  }

  @TLAPlusOperator(identifier = "MVec", module = M, warn = false)
  public static Value MVec(Value m, Value v) {
    double[] a = vec(m), x = vec(v);
    int n = dim(a);
    double[] r = new double[n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i] += a[i * n + j] * x[j];
    return mk(r);
  }

  @TLAPlusOperator(identifier = "MMul", module = M, warn = false)
  public static Value MMul(Value m, Value k) {
    double[] a = vec(m), b = vec(k);
    int n = (int) Math.round(Math.sqrt(a.length));
    double[] r = new double[n * n];
    for (int i = 0; i < n; i++)
      for (int l = 0; l < n; l++) for (int j = 0; j < n; j++) r[i * n + j] += a[i * n + l] * b[l * n + j];
    return mk(r);
  }

  @TLAPlusOperator(identifier = "MSolve", module = M, warn = false)
  public static Value MSolve(Value m, Value b) {
    double[] a = vec(m), x = vec(b);
    int n = dim(a);
    int[] col = new int[n];
    for (int i = 0; i < n; i++) col[i] = i;
    for (int k = 0; k < n; k++) {
      int p = k, q = k;
      double best = -1;
      for (int i = k; i < n; i++)
        for (int j = k; j < n; j++)
          if (Math.abs(a[i * n + j]) > best) {
            best = Math.abs(a[i * n + j]);
            p = i;
            q = j;
          }
      for (int j = 0; j < n; j++) {
        double t = a[k * n + j];
        a[k * n + j] = a[p * n + j];
        a[p * n + j] = t;
      }
      double t = x[k];
      x[k] = x[p];
      x[p] = t;
      for (int i = 0; i < n; i++) {
        t = a[i * n + k];
        a[i * n + k] = a[i * n + q];
        a[i * n + q] = t;
      }
      int c = col[k];
      col[k] = col[q];
      col[q] = c;
      for (int i = k + 1; i < n; i++) {
        double f = a[i * n + k] / a[k * n + k];
        if (f == 0) continue;
        for (int j = k; j < n; j++) a[i * n + j] -= f * a[k * n + j];
        x[i] -= f * x[k];
      }
    }
    double[] r = new double[n];
    for (int k = n - 1; k >= 0; k--) {
      for (int j = k + 1; j < n; j++) x[k] -= a[k * n + j] * r[col[j]];
      r[col[k]] = x[k] / a[k * n + k];
    }
    return mk(r);
  }

  @TLAPlusOperator(identifier = "MShift", module = M, warn = false)
  public static Value MShift(Value s, Value m) {
    double[] a = vec(m);
    int n = dim(a);
    for (int i = 0; i < n * n; i++) a[i] = -a[i];
    for (int i = 0; i < n; i++) a[i * n + i] += num(s);
    return mk(a);
  }

  /** Inverse of the Runge-Kutta matrix of the 3-stage Radau IIA method. */
  static final double[] RADAU_INV;

  static {
    double q = Math.sqrt(6);
    double[] a = {
      (88 - 7 * q) / 360, (296 - 169 * q) / 1800, (-2 + 3 * q) / 225,
      (296 + 169 * q) / 1800, (88 + 7 * q) / 360, (-2 - 3 * q) / 225,
      (16 - q) / 36, (16 + q) / 36, 1.0 / 9
    };
    RADAU_INV = new double[9];
    for (int j = 0; j < 3; j++) {
      double[] e = new double[3];
      e[j] = 1;
      double[] x = vec(MSolve(mk(a), mk(e)));
      for (int i = 0; i < 3; i++) RADAU_INV[3 * i + j] = x[i];
    }
  }

  @TLAPlusOperator(identifier = "MRadau", module = M, warn = false)
  public static Value MRadau(Value hh, Value m) {
    double[] jac = vec(m);
    double h = num(hh);
    int n = dim(jac), w = 3 * n;
    double[] r = new double[w * w];
    for (int a = 0; a < 3; a++)
      for (int b = 0; b < 3; b++)
        for (int i = 0; i < n; i++) r[(a * n + i) * w + b * n + i] += RADAU_INV[3 * a + b] / h;
    for (int a = 0; a < 3; a++)
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) r[(a * n + i) * w + a * n + j] -= jac[i * n + j];
    return mk(r);
  }
}
