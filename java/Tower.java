import java.math.BigInteger;
import tlc2.value.impl.*;

/** Evaluation of the operators of Tower.tla marked [J]. Elements are kept flat over the prime field. */
public class Tower {
  static final class Fld {
    BigInteger p; int[] d; BigInteger[][] nr; int[] size;
  }
  static Value[] el(Value v) { return ((TupleValue) v.toTuple()).elems; }
  private static Value lastV; private static Fld lastF;
  static Fld field(Value v) {
    Value[] e = el(v);
    Fld f = new Fld();
    f.p = BigNat.big(e[0]);
    Value[] x = el(e[1]);
    int n = x.length;
    f.d = new int[n]; f.nr = new BigInteger[n][]; f.size = new int[n + 1];
    f.size[0] = 1;
    for (int i = 0; i < n; i++) {
      Value[] lv = el(x[i]);
      f.d[i] = ((IntValue) lv[0]).val;
      f.size[i + 1] = f.size[i] * f.d[i];
      f.nr[i] = new BigInteger[f.size[i]];
      read(f, i, lv[1], f.nr[i], 0);
    }
    return f;
  }
  static void read(Fld f, int lv, Value v, BigInteger[] out, int off) {
    if (lv == 0) { out[off] = BigNat.big(v); return; }
    Value[] e = el(v);
    if (e.length != f.d[lv - 1]) throw new RuntimeException("tower element has " + e.length + " coefficients");
    for (int i = 0; i < e.length; i++) read(f, lv - 1, e[i], out, off + i * f.size[lv - 1]);
  }
  static BigInteger[] rd(Fld f, Value v) {
    int lv = f.d.length;
    BigInteger[] r = new BigInteger[f.size[lv]];
    read(f, lv, v, r, 0);
    return r;
  }
  static Value wr(Fld f, int lv, BigInteger[] a, int off) {
    if (lv == 0) return BigNat.val(a[off]);
    Value[] e = new Value[f.d[lv - 1]];
    for (int i = 0; i < e.length; i++) e[i] = wr(f, lv - 1, a, off + i * f.size[lv - 1]);
    return new TupleValue(e);
  }
  static Value wr(Fld f, BigInteger[] a) { return wr(f, f.d.length, a, 0); }
  static BigInteger[] mul(Fld f, int lv, BigInteger[] a, int ao, BigInteger[] b, int bo) {
    if (lv == 0) return new BigInteger[] {a[ao].multiply(b[bo]).mod(f.p)};
    int d = f.d[lv - 1], s = f.size[lv - 1];
    BigInteger[][] c = new BigInteger[2 * d - 1][];
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) {
      BigInteger[] m = mul(f, lv - 1, a, ao + i * s, b, bo + j * s);
      c[i + j] = c[i + j] == null ? m : add(f, c[i + j], m);
    }
    BigInteger[] r = new BigInteger[d * s];
    for (int i = 0; i < d; i++) {
      BigInteger[] t = c[i];
      if (i + d <= 2 * d - 2) t = add(f, t, mul(f, lv - 1, f.nr[lv - 1], 0, c[i + d], 0));
      System.arraycopy(t, 0, r, i * s, s);
    }
    return r;
  }
  static BigInteger[] mul(Fld f, BigInteger[] a, BigInteger[] b) { return mul(f, f.d.length, a, 0, b, 0); }
  static BigInteger[] add(Fld f, BigInteger[] a, BigInteger[] b) {
    BigInteger[] r = new BigInteger[a.length];
    for (int i = 0; i < r.length; i++) r[i] = a[i].add(b[i]).mod(f.p);
    return r;
  }
  static BigInteger[] sub(Fld f, BigInteger[] a, BigInteger[] b) {
    BigInteger[] r = new BigInteger[a.length];
    for (int i = 0; i < r.length; i++) r[i] = a[i].subtract(b[i]).mod(f.p);
    return r;
  }
  static BigInteger[] one(Fld f) {
    BigInteger[] r = new BigInteger[f.size[f.d.length]];
    java.util.Arrays.fill(r, BigInteger.ZERO);
    r[0] = BigInteger.ONE.mod(f.p);
    return r;
  }
  static BigInteger[] pow(Fld f, BigInteger[] a, BigInteger e) {
    BigInteger[] r = one(f);
    for (int i = e.bitLength() - 1; i >= 0; i--) {
      r = mul(f, r, r);
      if (e.testBit(i)) r = mul(f, r, a);
    }
    return r;
  }
  static boolean isZero(BigInteger[] a) { for (BigInteger x : a) if (x.signum() != 0) return false; return true; }
  static Fld sub(Fld f, int lv) {
    Fld g = new Fld();
    g.p = f.p;
    g.d = java.util.Arrays.copyOf(f.d, lv); g.nr = java.util.Arrays.copyOf(f.nr, lv); g.size = java.util.Arrays.copyOf(f.size, lv + 1);
    return g;
  }
  static BigInteger[] inv(Fld f, BigInteger[] a) {
    int lv = f.d.length;
    if (lv == 0) return new BigInteger[] {a[0].signum() == 0 ? BigInteger.ZERO : a[0].modInverse(f.p)};
    if (f.d[lv - 1] == 2) {
      Fld g = sub(f, lv - 1);
      int s = f.size[lv - 1];
      BigInteger[] x = java.util.Arrays.copyOfRange(a, 0, s), y = java.util.Arrays.copyOfRange(a, s, 2 * s);
      BigInteger[] n = inv(g, sub(g, mul(g, x, x), mul(g, f.nr[lv - 1], mul(g, y, y))));
      BigInteger[] zero = new BigInteger[s];
      java.util.Arrays.fill(zero, BigInteger.ZERO);
      BigInteger[] u = mul(g, x, n), w = sub(g, zero, mul(g, y, n)), r = new BigInteger[2 * s];
      System.arraycopy(u, 0, r, 0, s); System.arraycopy(w, 0, r, s, s);
      return r;
    }
    return pow(f, a, f.p.pow(f.size[lv]).subtract(BigInteger.TWO));
  }
  public static Value TwAdd(Value F, Value a, Value b) { Fld f = field(F); return wr(f, add(f, rd(f, a), rd(f, b))); }
  public static Value TwSub(Value F, Value a, Value b) { Fld f = field(F); return wr(f, sub(f, rd(f, a), rd(f, b))); }
  public static Value TwNeg(Value F, Value a) { Fld f = field(F); BigInteger[] x = rd(f, a); for (int i = 0; i < x.length; i++) x[i] = x[i].negate().mod(f.p); return wr(f, x); }
  public static Value TwMul(Value F, Value a, Value b) { Fld f = field(F); return wr(f, mul(f, rd(f, a), rd(f, b))); }
  public static Value TwPow(Value F, Value a, Value e) { Fld f = field(F); return wr(f, pow(f, rd(f, a), BigNat.big(e))); }
  public static Value TwInv(Value F, Value a) { Fld f = field(F); return wr(f, inv(f, rd(f, a))); }
}
