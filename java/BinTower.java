import java.math.BigInteger;
import tlc2.value.impl.*;

/** Evaluation of BtMul of BinTower.tla. */
public class BinTower {
  static BigInteger mul(int k, BigInteger a, BigInteger b) {
    if (a.signum() == 0 || b.signum() == 0) return BigInteger.ZERO;
    if (k == 0) return a.and(b);
    int h = 1 << (k - 1);
    BigInteger m = BigInteger.ONE.shiftLeft(h).subtract(BigInteger.ONE);
    BigInteger al = a.and(m), ah = a.shiftRight(h), bl = b.and(m), bh = b.shiftRight(h);
    BigInteger lo = mul(k - 1, al, bl), hi = mul(k - 1, ah, bh);
    BigInteger x = mul(k - 1, al, bh).xor(mul(k - 1, ah, bl));
    BigInteger alpha = k == 1 ? BigInteger.ONE : BigInteger.ONE.shiftLeft(h / 2);
    x = x.xor(mul(k - 1, hi, alpha));
    return lo.xor(hi).xor(x.shiftLeft(h));
  }
  public static Value BtMul(final IntValue k, final Value a, final Value b) {
    return BigNat.val(mul(k.val, BigNat.big(a), BigNat.big(b)));
  }
}
