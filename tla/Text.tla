--------------------------------- MODULE Text ---------------------------------
(* Byte strings (sequences of 0..255), the numerals they denote and the string  *)
(* utilities of tachyon::base.                                                  *)
EXTENDS Numerics
IsDig(c) == c \in 48..57
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
Space(c) == c \in 9..13 \/ c = 32
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
LowerS(s) == [i \in 1..Len(s) |-> Lower(s[i])]
UpperS(s) == [i \in 1..Len(s) |-> Upper(s[i])]
CapS(s) == IF s = << >> THEN s ELSE << Upper(s[1]) >> \o Tail(s)
Sub(s, i, j) == SubSeq(s, i, j)
RECURSIVE LStrip(_), RStrip(_)
LStrip(s) == IF s # << >> /\ Space(s[1]) THEN LStrip(Tail(s)) ELSE s
RStrip(s) == IF s # << >> /\ Space(s[Len(s)]) THEN RStrip(Sub(s, 1, Len(s) - 1)) ELSE s
Strip(s) == RStrip(LStrip(s))
\* the value of a sequence of digits in base b
RECURSIVE NumVal(_, _)
NumVal(s, b) == IF s = << >> THEN << >> ELSE BAdd(BMul(NumVal(Sub(s, 1, Len(s) - 1), b), BFromInt(b)), BFromInt(HexVal(s[Len(s)])))
Digits10(s) == s # << >> /\ \A i \in 1..Len(s) : IsDig(s[i])
Digits16(s) == s # << >> /\ \A i \in 1..Len(s) : HexVal(s[i]) < 16
StartsWith(s, p0) == Len(p0) <= Len(s) /\ Sub(s, 1, Len(p0)) = p0
EndsWith(s, p0) == Len(p0) <= Len(s) /\ Sub(s, Len(s) - Len(p0) + 1, Len(s)) = p0
From(s, i) == Sub(s, i, Len(s))
\* A signed numeral: surrounding white space, a sign, digits.  ok: it is one; n, v: its value.
Bad == [ok |-> FALSE, v |-> ZInt(0)]
SignedNum(s, b) ==
  LET a == Strip(s)
      sg == a # << >> /\ a[1] \in {43, 45}
      r == IF sg THEN Tail(a) ELSE a
      u == IF b = 16 /\ Len(r) >= 2 /\ r[1] = 48 /\ r[2] \in {120, 88} THEN From(r, 3) ELSE r
  IN IF (IF b = 10 THEN Digits10(u) ELSE Digits16(u)) THEN [ok |-> TRUE, v |-> Z(sg /\ a[1] = 45, NumVal(u, b)), neg |-> sg /\ a[1] = 45] ELSE Bad
\* parsing a value of type ty: succeeds exactly for numerals in range (unsigned types take no minus sign)
ParseInt(ty, s, b) == LET x == SignedNum(s, b) IN IF x.ok /\ InTy(ty, x.v) /\ (ty.signed \/ ~x.neg) THEN x ELSE Bad
\* the text of an integer, without superfluous digits
IsDec(s, z) == LET d == IF z.n THEN Tail(s) ELSE s IN (z.n => s[1] = 45) /\ Digits10(d) /\ (d[1] = 48 => Len(d) = 1) /\ NumVal(d, 10) = z.m
IsHexLower(s, m) == Digits16(s) /\ LowerS(s) = s /\ (s[1] = 48 => Len(s) = 1) /\ NumVal(s, 16) = m
RECURSIVE DecOf(_)
DecOf(n) == IF n < 0 THEN << 45 >> \o DecOf(-n) ELSE IF n < 10 THEN << 48 + n >> ELSE Append(DecOf(n \div 10), 48 + (n % 10))
HexDigit(v, lc) == IF v < 10 THEN 48 + v ELSE IF lc THEN 87 + v ELSE 55 + v
HexEnc(s, lc) == [i \in 1..(2 * Len(s)) |-> LET v == s[(i + 1) \div 2] IN HexDigit(IF i % 2 = 1 THEN v \div 16 ELSE v % 16, lc)]
\* the bytes denoted by the pairs of hexadecimal digits before the first bad pair
RECURSIVE HexDec(_)
HexDec(s) == IF Len(s) < 2 \/ HexVal(s[1]) > 15 \/ HexVal(s[2]) > 15 THEN << >> ELSE << 16 * HexVal(s[1]) + HexVal(s[2]) >> \o HexDec(From(s, 3))
HexOk(s) == s # << >> /\ Len(s) % 2 = 0 /\ Digits16(s)
RECURSIVE CmpCI(_, _)
CmpCI(a, b) == IF a = << >> \/ b = << >> THEN (IF Len(a) = Len(b) THEN 0 ELSE IF a = << >> THEN -1 ELSE 1)
               ELSE IF Lower(a[1]) < Lower(b[1]) THEN -1 ELSE IF Lower(a[1]) > Lower(b[1]) THEN 1 ELSE CmpCI(Tail(a), Tail(b))
Ox == << 48, 120 >>
Rep(c, n) == [i \in 1..n |-> c]
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = << >> THEN << >> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
List(ss) == << 91 >> \o Join(ss, << 44, 32 >>) \o << 93 >>
\* the decimal fraction denoted by [-]digits[.digits]: numerator and power of ten
DecFrac(s) == LET neg == s[1] = 45
                  r == IF s[1] \in {43, 45} THEN Tail(s) ELSE s
                  dots == {i \in 1..Len(r) : r[i] = 46}
                  dot == IF dots = {} THEN Len(r) + 1 ELSE CHOOSE i \in dots : TRUE
                  ip == Sub(r, 1, dot - 1)
                  fp == From(r, dot + 1)
              IN [ok |-> (\A i \in 1..Len(ip \o fp) : IsDig((ip \o fp)[i])) /\ ip \o fp # << >>, n |-> neg, m |-> NumVal(ip \o fp, 10), k |-> Len(fp)]
RECURSIVE Ten(_)
Ten(k) == IF k = 0 THEN BFromInt(1) ELSE BMul(Ten(k - 1), BFromInt(10))
BDist(a, b) == IF BLess(a, b) THEN BSub(b, a) ELSE BSub(a, b)
\* |m 2^e - d/10^k| <= 2^(e-1): m 2^e (m of full precision) is a nearest value
Nearest(m, e, d, k) == LET a == IF e >= 0 THEN BShl(BMul(m, Ten(k)), e) ELSE BMul(m, Ten(k))
                           b == IF e >= 0 THEN d ELSE BShl(d, -e)
                           u == IF e >= 0 THEN BShl(Ten(k), e) ELSE Ten(k)
                       IN BLe(BMul(BFromInt(2), BDist(a, b)), u)
=============================================================================
