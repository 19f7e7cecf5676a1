import tlc2.value.impl.*;

/** SHA-256 and BLAKE2b-512 for Hashes.tla. */
public class Hashes {
  static byte[] bytes(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    byte[] r = new byte[e.length];
    for (int i = 0; i < r.length; i++) {
      int x = ((IntValue) e[i]).val;
      if (x < 0 || x > 255) throw new RuntimeException("not a byte " + x);
      r[i] = (byte) x;
    }
    return r;
  }
  static Value out(byte[] b) {
    Value[] e = new Value[b.length];
    for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(b[i] & 255);
    return new TupleValue(e);
  }
  public static Value Sha256(Value s) {
    try {
      return out(java.security.MessageDigest.getInstance("SHA-256").digest(bytes(s)));
    } catch (java.security.NoSuchAlgorithmException x) {
      throw new RuntimeException(x);
    }
  }
  static final long[] IV = {0x6a09e667f3bcc908L, 0xbb67ae8584caa73bL, 0x3c6ef372fe94f82bL, 0xa54ff53a5f1d36f1L,
    0x510e527fade682d1L, 0x9b05688c2b3e6c1fL, 0x1f83d9abfb41bd6bL, 0x5be0cd19137e2179L};
  static final int[][] SIGMA = {
    {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
    {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
    {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
    {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
    {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};
  static void g(long[] v, int a, int b, int c, int d, long x, long y) {
    v[a] += v[b] + x; v[d] = Long.rotateRight(v[d] ^ v[a], 32);
    v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 24);
    v[a] += v[b] + y; v[d] = Long.rotateRight(v[d] ^ v[a], 16);
    v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 63);
  }
  static byte[] blake2b(byte[] in, byte[] person) {
    long[] h = IV.clone();
    h[0] ^= 0x01010000L | 64;
    for (int i = 0; i < 16; i++) h[6 + i / 8] ^= (person[i] & 255L) << (8 * (i % 8));
    int blocks = Math.max(1, (in.length + 127) / 128);
    for (int k = 0; k < blocks; k++) {
      long[] m = new long[16], v = new long[16];
      for (int i = 0; i < 128 && k * 128 + i < in.length; i++) m[i / 8] |= (in[k * 128 + i] & 255L) << (8 * (i % 8));
      boolean last = k == blocks - 1;
      System.arraycopy(h, 0, v, 0, 8);
      System.arraycopy(IV, 0, v, 8, 8);
      v[12] ^= last ? in.length : (k + 1) * 128L;
      if (last) v[14] = ~v[14];
      for (int r = 0; r < 12; r++) {
        int[] s = SIGMA[r % 10];
        g(v, 0, 4, 8, 12, m[s[0]], m[s[1]]); g(v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        g(v, 2, 6, 10, 14, m[s[4]], m[s[5]]); g(v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        g(v, 0, 5, 10, 15, m[s[8]], m[s[9]]); g(v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        g(v, 2, 7, 8, 13, m[s[12]], m[s[13]]); g(v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
      }
      for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
    }
    byte[] out = new byte[64];
    for (int i = 0; i < 64; i++) out[i] = (byte) (h[i / 8] >>> (8 * (i % 8)));
    return out;
  }
  public static Value Blake2b(Value s, Value person) { return out(blake2b(bytes(s), bytes(person))); }
}
