--------------------------------- MODULE Rng ---------------------------------
(* Seeded generators as streams of 32-bit words.  A word is << high, low >>,    *)
(* two halves of 16 bits.                                                       *)
(* XORShift: Marsaglia's xorshift128 over four words, seeded little endian.     *)
(* ChaCha20: the blocks of RFC 8439 under the key, with a 64-bit block counter  *)
(* from zero, read word by word.                                                *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
LOCAL INSTANCE TLC

W == 65536
WXor(x, y) == << x[1] ^^ y[1], x[2] ^^ y[2] >>
WAdd(x, y) == LET s == x[2] + y[2] IN << (x[1] + y[1] + (s \div W)) % W, s % W >>
\* 0 < n < 16
WShl(x, n) == << ((x[1] * 2^n) % W) + (x[2] \div 2^(16 - n)), (x[2] * 2^n) % W >>
WShr(x, n) == << x[1] \div 2^n, ((x[1] * 2^(16 - n)) % W) + (x[2] \div 2^n) >>
WRotl(x, n) == IF n = 16 THEN << x[2], x[1] >> ELSE << ((x[1] * 2^n) % W) + (x[2] \div 2^(16 - n)), ((x[2] * 2^n) % W) + (x[1] \div 2^(16 - n)) >>
\* four bytes from position i on, little endian
WordAt(s, i) == << s[i + 2] + 256 * s[i + 3], s[i] + 256 * s[i + 1] >>
Zero32 == << 0, 0 >>

\* ---- xorshift128
XorNext(s) == LET x0 == WXor(s[1], WShl(s[1], 11))
                  w0 == WXor(WXor(s[4], WShr(<< 0, s[4][1] >>, 3)), WXor(x0, WShr(x0, 8)))
              IN << s[2], s[3], s[4], w0 >>
\* the documented constant 0xBAD_5EED
XorDefault == LET w0 == << 2989, 24301 >> IN << w0, w0, w0, w0 >>

\* ---- ChaCha20
Quarter(v, a, b, c, d) ==
  LET a1 == WAdd(v[a], v[b])  d1 == WRotl(WXor(v[d], a1), 16)
      c1 == WAdd(v[c], d1)    b1 == WRotl(WXor(v[b], c1), 12)
      a2 == WAdd(a1, b1)      d2 == WRotl(WXor(d1, a2), 8)
      c2 == WAdd(c1, d2)      b2 == WRotl(WXor(b1, c2), 7)
  IN TLCEval([v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2])
Rounds == << << 1, 5, 9, 13 >>, << 2, 6, 10, 14 >>, << 3, 7, 11, 15 >>, << 4, 8, 12, 16 >>,
             << 1, 6, 11, 16 >>, << 2, 7, 12, 13 >>, << 3, 8, 9, 14 >>, << 4, 5, 10, 15 >> >>
DoubleRound(v) == FoldLeft(LAMBDA x0, q0 : Quarter(x0, q0[1], q0[2], q0[3], q0[4]), v, Rounds)
ChaChaCore(v) == LET e == FoldLeft(LAMBDA x0, i0 : DoubleRound(x0), v, << 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 >>)
                 IN TLCEval([i \in 1..16 |-> WAdd(e[i], v[i])])
Constants4 == << << 24944, 30821 >>, << 13088, 25710 >>, << 31074, 11570 >>, << 27424, 25972 >> >>
Input(key, ctr) == Constants4 \o key \o ctr \o << Zero32, Zero32 >>
CtrNext(ctr) == LET lo == WAdd(ctr[1], << 0, 1 >>) IN << lo, IF lo = Zero32 THEN WAdd(ctr[2], << 0, 1 >>) ELSE ctr[2] >>

\* ---- generators: [kind, s] or [kind, key, ctr, blk, idx]; idx words of blk are used up
SeedSize(kind) == IF kind = "xor" THEN 16 ELSE 32
FromSeed(kind, seed) ==
  IF kind = "xor" THEN [kind |-> kind, s |-> [i \in 1..4 |-> WordAt(seed, 4 * i - 3)]]
  ELSE [kind |-> kind, key |-> [i \in 1..8 |-> WordAt(seed, 4 * i - 3)], ctr |-> << Zero32, Zero32 >>, blk |-> << >>, idx |-> 16]
Fresh(kind) == IF kind = "xor" THEN [kind |-> kind, s |-> XorDefault] ELSE FromSeed(kind, [i \in 1..32 |-> 0])
\* << the generator afterwards, the word >>
Next32(g) ==
  IF g.kind = "xor" THEN LET s0 == TLCEval(XorNext(g.s)) IN << [g EXCEPT !.s = s0], s0[4] >>
  ELSE IF g.idx = 16 THEN LET b == TLCEval(ChaChaCore(Input(g.key, g.ctr))) IN << [g EXCEPT !.blk = b, !.ctr = TLCEval(CtrNext(@)), !.idx = 1], b[1] >>
  ELSE << [g EXCEPT !.idx = @ + 1], g.blk[g.idx + 1] >>
\* n words: << the generator afterwards, the words >>
Take(g, n) == FoldLeft(LAMBDA x0, i0 : LET y0 == Next32(x0[1]) IN << y0[1], Append(x0[2], y0[2]) >>, << g, << >> >>, [i \in 1..n |-> i])
=============================================================================
