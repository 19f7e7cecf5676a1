import java.math.BigInteger;
import tlc2.value.impl.*;

/** Evaluation of the operators of Poseidon.tla marked [J]. */
public class Poseidon {
  public static Value GrainBits(Value k, Value n) {
    Value[] e = Tower.el(k);
    int[] w = {12, 12, 10, 10};
    boolean[] s = new boolean[80];
    s[1] = true;
    int at = 6;
    for (int i = 0; i < 4; i++) {
      int v = ((IntValue) e[i]).val;
      for (int j = 0; j < w[i]; j++) s[at + j] = (v >> (w[i] - 1 - j) & 1) == 1;
      at += w[i];
    }
    for (int i = 50; i < 80; i++) s[i] = true;
    int m = ((IntValue) n).val, h = 0;
    Value[] out = new Value[m];
    int[] head = {0};
    for (int i = 0; i < 160; i++) step(s, head);
    for (int i = 0; i < m; ) {
      boolean a = step(s, head), b = step(s, head);
      if (a) out[i++] = IntValue.gen(b ? 1 : 0);
    }
    return new TupleValue(out);
  }
  static boolean step(boolean[] s, int[] head) {
    int h = head[0];
    boolean b = s[(h + 62) % 80] ^ s[(h + 51) % 80] ^ s[(h + 38) % 80] ^ s[(h + 23) % 80] ^ s[(h + 13) % 80] ^ s[h];
    s[h] = b;
    head[0] = (h + 1) % 80;
    return b;
  }
  static Value fld(Value c, String n) { return ((RecordValue) c.toRcd()).select(new StringValue(n)); }
  static int num(Value v) { return ((IntValue) v).val; }
  static BigInteger[] vec(Value v) {
    Value[] e = Tower.el(v);
    BigInteger[] r = new BigInteger[e.length];
    for (int i = 0; i < r.length; i++) r[i] = BigNat.big(e[i]);
    return r;
  }
  static Value out(BigInteger[] a) {
    Value[] e = new Value[a.length];
    for (int i = 0; i < e.length; i++) e[i] = BigNat.val(a[i]);
    return new TupleValue(e);
  }
  static BigInteger[][] mat(Value v) {
    Value[] e = Tower.el(v);
    BigInteger[][] r = new BigInteger[e.length][];
    for (int i = 0; i < r.length; i++) r[i] = vec(e[i]);
    return r;
  }
  static BigInteger[] mul(BigInteger p, BigInteger[][] m, BigInteger[] s) {
    BigInteger[] r = new BigInteger[m.length];
    for (int i = 0; i < r.length; i++) {
      BigInteger x = BigInteger.ZERO;
      for (int j = 0; j < m[i].length; j++) x = x.add(m[i][j].multiply(s[j]));
      r[i] = x.mod(p);
    }
    return r;
  }
  static BigInteger prime(Value F) {
    Tower.Fld f = Tower.field(F);
    if (f.d.length != 0) throw new RuntimeException("prime fields only");
    return f.p;
  }
  private static Value lastM; private static BigInteger[][][] lastC;
  static BigInteger[][] ark(Value c) {
    Value a = fld(c, "ark");
    synchronized (Poseidon.class) {
      if (lastM == a) return lastC[0];
      BigInteger[][] m = mat(a); lastM = a; lastC = new BigInteger[][][] {m};
      return m;
    }
  }
  public static Value PoseidonPerm(Value F, Value c, Value s0) {
    BigInteger p = prime(F), al = BigInteger.valueOf(num(fld(c, "alpha")));
    int rf = num(fld(c, "rf")), rp = num(fld(c, "rp"));
    BigInteger[][] k = ark(c), m = mat(fld(c, "mds"));
    BigInteger[] s = vec(s0);
    for (int i = 0; i < rf + rp; i++) {
      boolean full = i < rf / 2 || i >= rf / 2 + rp;
      for (int j = 0; j < s.length; j++) {
        s[j] = s[j].add(k[i][j]).mod(p);
        if (full || j == 0) s[j] = s[j].modPow(al, p);
      }
      s = mul(p, m, s);
    }
    return out(s);
  }
  static final int[][] HZ = {{5, 7, 1, 3}, {4, 6, 1, 1}, {1, 3, 5, 7}, {1, 1, 4, 6}};
  static final int[][] P3 = {{2, 3, 1, 1}, {1, 2, 3, 1}, {1, 1, 2, 3}, {3, 1, 1, 2}};
  public static Value Poseidon2Perm(Value F, Value c, Value s0) {
    BigInteger p = prime(F), al = BigInteger.valueOf(num(fld(c, "alpha"))), sc = BigNat.big(fld(c, "scale"));
    int rf = num(fld(c, "rf")), rp = num(fld(c, "rp"));
    BigInteger[][] k = ark(c);
    BigInteger[] s = vec(s0), d = vec(fld(c, "diag"));
    int w = s.length;
    int[][] M = ((BoolValue) fld(c, "horizen")).val ? HZ : P3;
    BigInteger[][] m = new BigInteger[w][w];
    for (int i = 0; i < w; i++) for (int j = 0; j < w; j++)
      m[i][j] = BigInteger.valueOf(w < 4 ? (i == j ? 2 : 1) : M[i % 4][j % 4] * (w > 4 && i / 4 == j / 4 ? 2 : 1)).mod(p);
    s = mul(p, m, s);
    for (int i = 0; i < rf + rp; i++) {
      if (i < rf / 2 || i >= rf / 2 + rp) {
        for (int j = 0; j < w; j++) s[j] = s[j].add(k[i][j]).modPow(al, p);
        s = mul(p, m, s);
      } else {
        s[0] = s[0].add(k[i][0]).modPow(al, p);
        BigInteger S = BigInteger.ZERO;
        for (BigInteger x : s) S = S.add(x);
        for (int j = 0; j < w; j++) s[j] = sc.multiply(S.add(d[j].multiply(s[j]))).mod(p);
      }
    }
    return out(s);
  }
  static BigInteger nat(Value[] q, int i, int n) {
    BigInteger r = BigInteger.ZERO;
    for (int j = 0; j < n; j++) if (num(q[i + j]) == 1) r = r.setBit(n - 1 - j);
    return r;
  }
  public static Value GrReject(Value q, Value p, Value n, Value i, Value m) {
    Value[] b = Tower.el(q);
    BigInteger P = BigNat.big(p);
    int N = num(n), at = num(i) - 1;
    Value[] acc = new Value[num(m)];
    for (int k = 0; k < acc.length; at += N) {
      BigInteger x = nat(b, at, N);
      if (x.compareTo(P) < 0) acc[k++] = BigNat.val(x);
    }
    return new TupleValue(new Value[] {new TupleValue(acc), IntValue.gen(at + 1)});
  }
  public static Value GrModP(Value q, Value p, Value n, Value i, Value m) {
    Value[] b = Tower.el(q);
    BigInteger P = BigNat.big(p);
    int N = num(n), at = num(i) - 1;
    Value[] r = new Value[num(m)];
    for (int k = 0; k < r.length; k++) r[k] = BigNat.val(nat(b, at + k * N, N).mod(P));
    return new TupleValue(r);
  }
}
