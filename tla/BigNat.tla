------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size for TLC (whose integers are 32-bit).           *)
(* A number is the tuple of its base-4096 limbs, least significant first,     *)
(* without leading (i.e. trailing in the tuple) zero limbs; zero is << >>.    *)
(* Every operator is defined here in plain TLA+; java/BigNat.java gives TLC    *)
(* an equivalent BigInteger evaluation of the ones marked [J].  The model      *)
(* BigNatSelf compares the two.                                                *)
EXTENDS Integers, Sequences

Base == 4096

IsBig(a) == /\ DOMAIN a = 1..Len(a)
            /\ \A i \in DOMAIN a : a[i] \in 0..(Base-1)
            /\ Len(a) > 0 => a[Len(a)] # 0

RECURSIVE PTrim(_)
PTrim(a) == IF a = << >> THEN << >>
            ELSE IF a[Len(a)] = 0 THEN PTrim(SubSeq(a, 1, Len(a)-1)) ELSE a

PLimb(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0
PMax(x, y) == IF x > y THEN x ELSE y

\* carry-normalise columns c[1..n] (each < 2^31 - 2^19)
RECURSIVE PCarry(_, _, _, _)
PCarry(c, i, carry, acc) ==
  IF i > Len(c) THEN IF carry = 0 THEN acc
                     ELSE PCarry(c, i + 1, carry \div Base, Append(acc, carry % Base))
  ELSE LET t == c[i] + carry
       IN  PCarry(c, i + 1, t \div Base, Append(acc, t % Base))

RECURSIVE PFromInt(_)
PFromInt(n) == IF n = 0 THEN << >> ELSE << n % Base >> \o PFromInt(n \div Base)
PAdd(a, b) == PTrim(PCarry([i \in 1..PMax(Len(a), Len(b)) |-> PLimb(a, i) + PLimb(b, i)], 1, 0, << >>))

RECURSIVE PLessFrom(_, _, _)
PLessFrom(a, b, i) == IF i = 0 THEN FALSE
                      ELSE IF PLimb(a, i) # PLimb(b, i) THEN PLimb(a, i) < PLimb(b, i)
                      ELSE PLessFrom(a, b, i - 1)
PLess(a, b) == PLessFrom(a, b, PMax(Len(a), Len(b)))

\* a - b for a >= b
PSub(a, b) == PTrim(PCarry([i \in 1..Len(a) |-> PLimb(a, i) - PLimb(b, i)], 1, 0, << >>))

RECURSIVE PColumn(_, _, _, _)
PColumn(a, b, k, i) == IF i > Len(a) THEN 0
                       ELSE PLimb(a, i) * PLimb(b, k + 1 - i) + PColumn(a, b, k, i + 1)
PMul(a, b) == IF a = << >> \/ b = << >> THEN << >>
              ELSE PTrim(PCarry([k \in 1..(Len(a) + Len(b) - 1) |-> PColumn(a, b, k, 1)], 1, 0, << >>))

PShiftLimb(a, d) == PTrim(<< d >> \o a)
\* largest q in lo..hi with q*b <= r
RECURSIVE PDigit(_, _, _, _)
PDigit(r, b, lo, hi) == IF lo = hi THEN lo
                        ELSE LET m == (lo + hi + 1) \div 2
                             IN IF PLess(r, PMul(PFromInt(m), b)) THEN PDigit(r, b, lo, m - 1)
                                ELSE PDigit(r, b, m, hi)
RECURSIVE PDivMod(_, _, _, _, _)
PDivMod(a, b, i, q, r) ==
  IF i = 0 THEN << PTrim(q), r >>
  ELSE LET r1 == PShiftLimb(r, a[i])
           d  == PDigit(r1, b, 0, Base - 1)
       IN  PDivMod(a, b, i - 1, << d >> \o q, PSub(r1, PMul(PFromInt(d), b)))
PDiv(a, b) == PDivMod(a, b, Len(a), << >>, << >>)[1]
PMod(a, b) == PDivMod(a, b, Len(a), << >>, << >>)[2]

RECURSIVE PToInt(_)
PToInt(a) == IF a = << >> THEN 0 ELSE a[1] + Base * PToInt(Tail(a))

PHalf(a) == PDiv(a, << 2 >>)
POdd(a) == Len(a) > 0 /\ a[1] % 2 = 1
RECURSIVE PPowMod(_, _, _)
PPowMod(a, e, p) == IF e = << >> THEN PMod(<< 1 >>, p)
                    ELSE LET h == PPowMod(a, PHalf(e), p)
                             s == PMod(PMul(h, h), p)
                         IN IF POdd(e) THEN PMod(PMul(s, a), p) ELSE s
RECURSIVE PPow2(_)
PPow2(k) == IF k < 12 THEN << 2^k >> ELSE << 0 >> \o PPow2(k - 12)
\* bitwise: op on single bits
RECURSIVE PBitsOp(_, _, _, _)
PBitsOp(Op(_, _), x, y, w) == IF w = 0 THEN 0
   ELSE Op(x % 2, y % 2) + 2 * PBitsOp(Op, x \div 2, y \div 2, w - 1)
PBitwise(Op(_, _), a, b) ==
   PTrim([i \in 1..PMax(Len(a), Len(b)) |-> PBitsOp(Op, PLimb(a, i), PLimb(b, i), 12)])
PXor1(x, y) == (x + y) % 2
PAnd1(x, y) == x * y
POr1(x, y) == IF x + y > 0 THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* The interface [J]                                                          *)
BFromInt(n) == PFromInt(n)              \* n \in Nat
BToInt(a) == PToInt(a)                  \* a < 2^31
BAdd(a, b) == PAdd(a, b)
BSub(a, b) == PSub(a, b)                \* a >= b
BMul(a, b) == PMul(a, b)
BDiv(a, b) == PDiv(a, b)
BMod(a, b) == PMod(a, b)
BLess(a, b) == PLess(a, b)
BPowMod(a, e, p) == PPowMod(a, e, p)
BPow2(k) == PPow2(k)
BXor(a, b) == PBitwise(PXor1, a, b)
BAnd(a, b) == PBitwise(PAnd1, a, b)
BOr(a, b) == PBitwise(POr1, a, b)
BShl(a, k) == PMul(a, PPow2(k))
BShr(a, k) == PDiv(a, PPow2(k))
BMulMod(a, b, p) == PMod(PMul(a, b), p)
BAddMod(a, b, p) == PMod(PAdd(a, b), p)
BSubMod(a, b, p) == PMod(PSub(PAdd(PMod(a, p), p), PMod(b, p)), p)

BLe(a, b) == ~BLess(b, a)
BZero == << >>
BOne == << 1 >>
BOdd(a) == Len(a) > 0 /\ a[1] % 2 = 1
BBit(a, i) == LET k == i \div 12 IN IF k + 1 > Len(a) THEN 0 ELSE (a[k + 1] \div 2^(i % 12)) % 2
RECURSIVE BLog(_, _)
BLog(x, n) == IF x = 0 THEN n ELSE BLog(x \div 2, n + 1)
BBitLen(a) == IF Len(a) = 0 THEN 0 ELSE 12 * (Len(a) - 1) + BLog(a[Len(a)], 0)
BNegMod(a, p) == BSubMod(BZero, a, p)
=============================================================================
