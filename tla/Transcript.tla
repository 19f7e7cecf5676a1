------------------------------ MODULE Transcript ------------------------------
(* The Fiat-Shamir machines: sponges, hashers, challengers and proof            *)
(* transcripts.  Each is given as a state and what one absorbed or squeezed     *)
(* value does to it.  P = << F, c, two >> names the permutation.                *)
EXTENDS Poseidon, Hashes, Ec
LOCAL INSTANCE TLC
Perm(P, s) == IF P[3] THEN Poseidon2Perm(P[1], P[2], s) ELSE PoseidonPerm(P[1], P[2], s)
\* Poseidon2 over a small field in Montgomery form with a diagonal of powers of two
ShiftPerm(e) ==
  LET f == << e.p, << >> >>
  IN << f, [alpha |-> e.alpha, rf |-> e.rf, rp |-> e.rp, ark |-> e.ark, horizen |-> FALSE, scale |-> TwInv(f, TwPow(f, <<2>>, <<32>>)),
            diag |-> [i \in 1..e.w |-> IF i = 1 THEN TwNeg(f, <<2>>) ELSE TwPow(f, <<2>>, BFromInt(e.shifts[i - 1]))]], TRUE >>
ZeroState(w) == [i \in 1..w |-> << >>]

\* duplex sponge of the Poseidon hash: m = << state, squeezing?, next index >>
SpNew(w) == << ZeroState(w), FALSE, 0 >>
SpIn(P, cap, rate, m, x) ==
  LET u == IF m[2] \/ m[3] = rate THEN << Perm(P, m[1]), 0 >> ELSE << m[1], m[3] >>
  IN << [u[1] EXCEPT ![cap + u[2] + 1] = TwAdd(P[1], @, x)], FALSE, u[2] + 1 >>
SpOut(P, cap, rate, m) ==
  LET u == IF ~m[2] \/ m[3] = rate THEN << Perm(P, m[1]), 0 >> ELSE << m[1], m[3] >>
  IN << u[1][cap + u[2] + 1], << u[1], TRUE, u[2] + 1 >> >>
RECURSIVE SpAbsorb(_, _, _, _, _, _)
SpAbsorb(P, cap, rate, m, v, i) == IF i > Len(v) THEN m ELSE SpAbsorb(P, cap, rate, TLCEval(SpIn(P, cap, rate, m, v[i])), v, i + 1)
RECURSIVE SpSqueeze(_, _, _, _, _, _)
SpSqueeze(P, cap, rate, m, n, acc) == IF n = 0 THEN << acc, m >>
  ELSE LET o == TLCEval(SpOut(P, cap, rate, m)) IN SpSqueeze(P, cap, rate, o[2], n - 1, Append(acc, o[1]))

\* padding-free sponge hash and truncated permutation
RECURSIVE PfRun(_, _, _, _, _)
PfRun(P, rate, s, v, i) == IF i > Len(v) THEN s
  ELSE PfRun(P, rate, TLCEval(Perm(P, [j \in 1..Len(s) |-> IF j <= rate /\ i + j - 1 <= Len(v) THEN v[i + j - 1] ELSE s[j]])), v, i + rate)
PfHash(P, w, rate, out, v) == SubSeq(PfRun(P, rate, ZeroState(w), v, 1), 1, out)
RECURSIVE TrFlat(_, _)
TrFlat(v, i) == IF i > Len(v) THEN << >> ELSE v[i] \o TrFlat(v, i + 1)
TruncPerm(P, w, chunk, v) == LET f == TrFlat(v, 1) IN SubSeq(Perm(P, [j \in 1..w |-> IF j <= Len(f) THEN f[j] ELSE << >>]), 1, chunk)

\* duplex challenger: m = << state, inputs not yet duplexed, outputs not yet taken >>
DcNew(w) == << ZeroState(w), << >>, << >> >>
DcDuplex(P, m) == LET s == Perm(P, [j \in 1..Len(m[1]) |-> IF j <= Len(m[2]) THEN m[2][j] ELSE m[1][j]]) IN << s, << >>, s >>
DcIn(P, R, m, x) == LET u == << m[1], Append(m[2], x), << >> >> IN IF Len(u[2]) = R THEN DcDuplex(P, u) ELSE u
Front(q) == SubSeq(q, 1, Len(q) - 1)
DcOut(P, m) == LET u == TLCEval(IF m[2] # << >> \/ m[3] = << >> THEN DcDuplex(P, m) ELSE m)
               IN << u[3][Len(u[3])], << u[1], u[2], Front(u[3]) >> >>

\* hash challenger: m = << inputs, outputs not yet taken >>
HcIn(m, x) == << Append(m[1], x), << >> >>
HcOut(P, w, rate, out, m) ==
  LET h == PfHash(P, w, rate, out, m[1])
      u == IF m[2] = << >> THEN << h, h >> ELSE m
  IN << u[2][Len(u[2])], << u[1], Front(u[2]) >> >>

\* challenger of small field elements over a permutation of big ones; k of them in one
RECURSIVE McPack(_, _, _)
McPack(v, i, n) == IF n = 0 THEN << >> ELSE BAdd(v[i], BShl(McPack(v, i + 1, n - 1), 32))
McSplit(x, q, k) == [i \in 1..k |-> BMod(BMod(BShr(x, 64 * (i - 1)), BShl(BOne, 64)), q)]
McDuplex(P, k, q, m) ==
  LET n == (Len(m[2]) + k - 1) \div k
      s == Perm(P, [j \in 1..Len(m[1]) |-> IF j <= n THEN BMod(McPack(m[2], (j - 1) * k + 1, IF j < n THEN k ELSE Len(m[2]) - (n - 1) * k), P[1][1]) ELSE m[1][j]])
      o == [j \in 1..(k * Len(s)) |-> McSplit(s[((j - 1) \div k) + 1], q, k)[((j - 1) % k) + 1]]
  IN << s, << >>, o >>
McIn(P, k, q, m, x) == LET u == << m[1], Append(m[2], x), << >> >> IN IF Len(u[2]) = k * Len(m[1]) THEN McDuplex(P, k, q, u) ELSE u
McOut(P, k, q, m) == LET u == TLCEval(IF m[2] # << >> \/ m[3] = << >> THEN McDuplex(P, k, q, m) ELSE m)
                     IN << u[3][Len(u[3])], << u[1], u[2], Front(u[3]) >> >>

\* transcript over a byte-oriented hash: m is the string hashed so far
Two256 == BShl(BOne, 256)
Wide(b, p) == BMod(FromLE(b), p)
Personal == << 72, 97, 108, 111, 50, 45, 84, 114, 97, 110, 115, 99, 114, 105, 112, 116 >>
BlScalar(x) == << 2 >> \o LE(x, 32)
BlPoint(x, y) == << 1 >> \o (IF x = << >> /\ y = << >> THEN Zeros(32) \o LE(<< 5 >>, 32) ELSE LE(x, 32) \o LE(y, 32))
BlOut(h, p) == LET u == Append(h, 0) IN << Wide(Blake2b(u, Personal), p), u >>
ShScalar(x) == Append(Zeros(31), 2) \o BE(x, 32)
ShPoint(x, y) == Append(Zeros(31), 1) \o BE(x, 32) \o BE(y, 32)
ShOut(h, p) == LET d == TLCEval(Sha256(Append(h, 0))) IN << Wide(d, p), d >>

\* transcripts over Poseidon: m = << state, values not yet added >>
PtNew(w) == << [ZeroState(w) EXCEPT ![1] = BShl(BOne, 64)], << >> >>
PtAdd(P, s, v) == [j \in 1..Len(s) |-> IF j > 1 /\ j - 1 <= Len(v) THEN TwAdd(P[1], s[j], v[j - 1]) ELSE s[j]]
PtIn(P, m, x) == LET u == Append(m[2], x) IN IF Len(u) = Len(m[1]) - 1 THEN << TLCEval(Perm(P, PtAdd(P, m[1], u))), << >> >> ELSE << m[1], u >>
PtOut(P, m) == LET s == TLCEval(Perm(P, PtAdd(P, m[1], Append(m[2], <<1>>)))) IN << s[2], << s, << >> >> >>
\* the other one keeps everything until a challenge is drawn
RECURSIVE SvRun(_, _, _, _, _)
SvRun(P, s, v, i, rate) ==
  IF i > Len(v) + 1 THEN s
  ELSE LET k == SubSeq(v, i, IF i + rate - 1 < Len(v) THEN i + rate - 1 ELSE Len(v))
       IN SvRun(P, TLCEval(Perm(P, PtAdd(P, s, IF Len(k) < rate THEN Append(k, <<1>>) ELSE k))), v, i + rate, rate)
SvOut(P, m) == LET s == SvRun(P, m[1], m[2], 1, Len(m[1]) - 1) IN << s[2], << s, << >> >> >>

\* encodings in a proof; o.mont: field elements in Montgomery form, o.legacy: one flag bit instead of two
Mont(x, p) == BMod(BMul(x, Two256), p)
EncScalar(o, x, r) == LE(IF o.mont THEN Mont(x, r) ELSE x, 32)
EncPoint(o, x, y) ==
  LET b == LE(x, 32)
  IN IF x = << >> /\ y = << >> THEN Append(Zeros(31), IF o.legacy THEN 0 ELSE 128)
     ELSE IF BOdd(y) THEN [b EXCEPT ![32] = @ + (IF o.legacy THEN 128 ELSE 64)] ELSE b
EncRaw(x, y) == LE(x, 32) \o LE(y, 32)
===============================================================================
