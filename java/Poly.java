import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;

/** Evaluation of the operators of Poly.tla marked [J]. */
public class Poly {
  static BigInteger[][] rd(Tower.Fld f, Value v) {
    Value[] e = Tower.el(v);
    BigInteger[][] r = new BigInteger[e.length][];
    for (int i = 0; i < e.length; i++) r[i] = Tower.rd(f, e[i]);
    return r;
  }
  static Value wr(Tower.Fld f, BigInteger[][] a) {
    int n = a.length;
    while (n > 0 && Tower.isZero(a[n - 1])) n--;
    Value[] e = new Value[n];
    for (int i = 0; i < n; i++) e[i] = Tower.wr(f, a[i]);
    return new TupleValue(e);
  }
  static BigInteger[] zero(Tower.Fld f) {
    BigInteger[] r = new BigInteger[f.size[f.d.length]];
    Arrays.fill(r, BigInteger.ZERO);
    return r;
  }
  static BigInteger[][] zeros(Tower.Fld f, int n) {
    BigInteger[][] r = new BigInteger[n][];
    for (int i = 0; i < n; i++) r[i] = zero(f);
    return r;
  }
  static BigInteger[][] mul(Tower.Fld f, BigInteger[][] a, BigInteger[][] b) {
    if (a.length == 0 || b.length == 0) return new BigInteger[0][];
    BigInteger[][] r = zeros(f, a.length + b.length - 1);
    for (int i = 0; i < a.length; i++) {
      if (Tower.isZero(a[i])) continue;
      for (int j = 0; j < b.length; j++)
        if (!Tower.isZero(b[j])) r[i + j] = Tower.add(f, r[i + j], Tower.mul(f, a[i], b[j]));
    }
    return r;
  }
  static BigInteger[] eval(Tower.Fld f, BigInteger[][] a, BigInteger[] x) {
    BigInteger[] r = zero(f);
    for (int i = a.length - 1; i >= 0; i--) r = Tower.add(f, Tower.mul(f, r, x), a[i]);
    return r;
  }
  static BigInteger[][] comb(Tower.Fld f, BigInteger[][] a, BigInteger[][] b, boolean minus) {
    BigInteger[][] r = zeros(f, Math.max(a.length, b.length));
    for (int i = 0; i < r.length; i++) {
      if (i < a.length) r[i] = a[i];
      if (i < b.length) r[i] = minus ? Tower.sub(f, r[i], b[i]) : Tower.add(f, r[i], b[i]);
    }
    return r;
  }
  public static Value PoAdd(Value F, Value a, Value b) { Tower.Fld f = Tower.field(F); return wr(f, comb(f, rd(f, a), rd(f, b), false)); }
  public static Value PoSub(Value F, Value a, Value b) { Tower.Fld f = Tower.field(F); return wr(f, comb(f, rd(f, a), rd(f, b), true)); }
  public static Value PoScale(Value F, Value a, Value c) {
    Tower.Fld f = Tower.field(F);
    BigInteger[][] x = rd(f, a);
    BigInteger[] y = Tower.rd(f, c);
    for (int i = 0; i < x.length; i++) x[i] = Tower.mul(f, x[i], y);
    return wr(f, x);
  }
  public static Value PoMul(Value F, Value a, Value b) { Tower.Fld f = Tower.field(F); return wr(f, mul(f, rd(f, a), rd(f, b))); }
  public static Value PoEval(Value F, Value a, Value x) { Tower.Fld f = Tower.field(F); return Tower.wr(f, eval(f, rd(f, a), Tower.rd(f, x))); }
  public static Value PoDivMod(Value F, Value a, Value b) {
    Tower.Fld f = Tower.field(F);
    BigInteger[][] x = rd(f, a), y = rd(f, b);
    if (x.length < y.length) return new TupleValue(new Value[] {new TupleValue(new Value[0]), wr(f, x)});
    BigInteger[][] q = zeros(f, x.length - y.length + 1);
    BigInteger[] inv = Tower.inv(f, y[y.length - 1]);
    for (int k = x.length - y.length; k >= 0; k--) {
      q[k] = Tower.mul(f, x[k + y.length - 1], inv);
      for (int j = 0; j < y.length; j++) x[k + j] = Tower.sub(f, x[k + j], Tower.mul(f, q[k], y[j]));
    }
    return new TupleValue(new Value[] {wr(f, q), wr(f, x)});
  }
  public static Value PoRoots(Value F, Value xs) {
    Tower.Fld f = Tower.field(F);
    BigInteger[][] r = {Tower.one(f)};
    for (BigInteger[] x : rd(f, xs)) {
      BigInteger[][] l = {Tower.sub(f, zero(f), x), Tower.one(f)};
      r = mul(f, r, l);
    }
    return wr(f, r);
  }
  public static Value PoEvalsAt(Value F, Value a, Value off, Value g, Value n) {
    Tower.Fld f = Tower.field(F);
    BigInteger[][] p = rd(f, a);
    BigInteger[] x = Tower.rd(f, off), s = Tower.rd(f, g);
    Value[] e = new Value[((IntValue) n).val];
    for (int i = 0; i < e.length; i++) {
      e[i] = Tower.wr(f, eval(f, p, x));
      x = Tower.mul(f, x, s);
    }
    return new TupleValue(e);
  }
}
