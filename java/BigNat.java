import java.math.BigInteger;
import tlc2.value.impl.*;

/** BigInteger evaluation of the operators of BigNat.tla marked [J]. */
public class BigNat {
  static BigInteger big(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    int n = e.length;
    if (n == 0) return BigInteger.ZERO;
    // pack pairs of 12-bit limbs into 3 bytes, big-endian magnitude
    byte[] m = new byte[(n * 12 + 7) / 8 + 1];
    int L = m.length;
    for (int i = 0; i < n; i++) {
      int x = ((IntValue) e[i]).val;
      if (x < 0 || x > 4095) throw new RuntimeException("bad limb " + x);
      int bit = 12 * i, by = bit >> 3;
      if ((bit & 7) == 0) {
        m[L - 1 - by] |= (byte) (x & 0xff);
        m[L - 2 - by] |= (byte) (x >> 8);
      } else {
        m[L - 1 - by] |= (byte) ((x & 0xf) << 4);
        m[L - 2 - by] |= (byte) (x >> 4);
      }
    }
    return new BigInteger(1, m);
  }
  static Value val(BigInteger b) {
    if (b.signum() < 0) throw new RuntimeException("negative BigNat");
    int bits = b.bitLength();
    int n = (bits + 11) / 12;
    Value[] e = new Value[n];
    byte[] m = b.toByteArray();
    int L = m.length;
    for (int i = 0; i < n; i++) {
      int bit = 12 * i, by = bit >> 3;
      int lo = by < L ? m[L - 1 - by] & 0xff : 0;
      int hi = by + 1 < L ? m[L - 2 - by] & 0xff : 0;
      int x = (bit & 7) == 0 ? (lo | (hi & 0xf) << 8) : (lo >> 4 | hi << 4);
      e[i] = IntValue.gen(x);
    }
    return new TupleValue(e);
  }
  private static int num(Value v) { return ((IntValue) v).val; }

  public static Value BFromInt(Value n) { return val(BigInteger.valueOf(num(n))); }
  public static Value BToInt(Value a) { return IntValue.gen(big(a).intValueExact()); }
  public static Value BAdd(Value a, Value b) { return val(big(a).add(big(b))); }
  public static Value BSub(Value a, Value b) { return val(big(a).subtract(big(b))); }
  public static Value BMul(Value a, Value b) { return val(big(a).multiply(big(b))); }
  public static Value BDiv(Value a, Value b) { return val(big(a).divide(big(b))); }
  public static Value BMod(Value a, Value b) { return val(big(a).mod(big(b))); }
  public static Value BLess(Value a, Value b) { return big(a).compareTo(big(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value BPowMod(Value a, Value e, Value p) { return val(big(a).modPow(big(e), big(p))); }
  public static Value BPow2(Value k) { return val(BigInteger.ONE.shiftLeft(num(k))); }
  public static Value BXor(Value a, Value b) { return val(big(a).xor(big(b))); }
  public static Value BAnd(Value a, Value b) { return val(big(a).and(big(b))); }
  public static Value BOr(Value a, Value b) { return val(big(a).or(big(b))); }
  public static Value BShl(Value a, Value k) { return val(big(a).shiftLeft(num(k))); }
  public static Value BShr(Value a, Value k) { return val(big(a).shiftRight(num(k))); }
  public static Value BMulMod(Value a, Value b, Value p) { return val(big(a).multiply(big(b)).mod(big(p))); }
  public static Value BAddMod(Value a, Value b, Value p) { return val(big(a).add(big(b)).mod(big(p))); }
  public static Value BSubMod(Value a, Value b, Value p) { return val(big(a).subtract(big(b)).mod(big(p))); }
}
