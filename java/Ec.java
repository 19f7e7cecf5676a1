import java.math.BigInteger;
import tlc2.value.impl.*;

/** Evaluation of the operators of Ec.tla marked [J]. A point is null (identity) or {x, y}. */
public class Ec {
  static BigInteger[][] pt(Tower.Fld f, Value v) {
    Value[] e = Tower.el(v);
    if (e.length == 0) return null;
    return new BigInteger[][] {Tower.rd(f, e[0]), Tower.rd(f, e[1])};
  }
  static Value val(Tower.Fld f, BigInteger[][] p) {
    if (p == null) return new TupleValue(new Value[0]);
    return new TupleValue(new Value[] {Tower.wr(f, p[0]), Tower.wr(f, p[1])});
  }
  static BigInteger[] inv(Tower.Fld f, BigInteger[] a) { return Tower.inv(f, a); }
  static BigInteger[][] add(Tower.Fld f, BigInteger[] A, BigInteger[][] p, BigInteger[][] q) {
    if (p == null) return q;
    if (q == null) return p;
    BigInteger[] l;
    if (java.util.Arrays.equals(p[0], q[0])) {
      if (Tower.isZero(Tower.add(f, p[1], q[1]))) return null;
      BigInteger[] x2 = Tower.mul(f, p[0], p[0]);
      l = Tower.mul(f, Tower.add(f, Tower.add(f, x2, Tower.add(f, x2, x2)), A), inv(f, Tower.add(f, p[1], p[1])));
    } else {
      l = Tower.mul(f, Tower.sub(f, q[1], p[1]), inv(f, Tower.sub(f, q[0], p[0])));
    }
    BigInteger[] x = Tower.sub(f, Tower.sub(f, Tower.mul(f, l, l), p[0]), q[0]);
    return new BigInteger[][] {x, Tower.sub(f, Tower.mul(f, l, Tower.sub(f, p[0], x)), p[1])};
  }
  static BigInteger[][] mul(Tower.Fld f, BigInteger[] A, BigInteger[][] p, BigInteger k) {
    BigInteger[][] r = null;
    for (int i = k.bitLength() - 1; i >= 0; i--) {
      r = add(f, A, r, r);
      if (k.testBit(i)) r = add(f, A, r, p);
    }
    return r;
  }
  public static Value EcAdd(Value F, Value a, Value p, Value q) {
    Tower.Fld f = Tower.field(F);
    return val(f, add(f, Tower.rd(f, a), pt(f, p), pt(f, q)));
  }
  public static Value EcMul(Value F, Value a, Value p, Value k) {
    Tower.Fld f = Tower.field(F);
    return val(f, mul(f, Tower.rd(f, a), pt(f, p), BigNat.big(k)));
  }
  /** sum of ks[i] * ps[i] */
  public static Value EcMsm(Value F, Value a, Value ps, Value ks) {
    Tower.Fld f = Tower.field(F);
    BigInteger[] A = Tower.rd(f, a);
    Value[] P = Tower.el(ps), K = Tower.el(ks);
    int n = K.length, bits = 0;
    BigInteger[][][] pts = new BigInteger[n][][];
    BigInteger[] kk = new BigInteger[n];
    for (int i = 0; i < n; i++) { pts[i] = pt(f, P[i]); kk[i] = BigNat.big(K[i]); bits = Math.max(bits, kk[i].bitLength()); }
    BigInteger[][] r = null;
    for (int b = bits - 1; b >= 0; b--) {
      r = add(f, A, r, r);
      for (int i = 0; i < n; i++) if (kk[i].testBit(b)) r = add(f, A, r, pts[i]);
    }
    return val(f, r);
  }
}
