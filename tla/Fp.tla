---------------------------------- MODULE Fp ----------------------------------
(* A machine of NReg registers holding residues modulo p.  What the machine    *)
(* holds are the canonical residues; what an operation answers is ans.         *)
EXTENDS BigNat

NReg == 6
VARIABLES p, r
fpvars == << p, r >>

Bit(n) == BFromInt(n)
FAdd(a, b) == BAddMod(a, b, p)
FSub(a, b) == BSubMod(a, b, p)
FMul(a, b) == BMulMod(a, b, p)
FNeg(a) == BNegMod(a, p)
FPow(a, e) == BPowMod(a, e, p)
PMinus2 == BSub(p, << 2 >>)
FInv(a) == FPow(a, PMinus2)                     \* a # 0
FDiv(a, b) == FMul(a, FInv(b))
None == "none"
\* sums over sequences
RECURSIVE FSum(_, _)
FSum(s, i) == IF i = 0 THEN << >> ELSE FAdd(FSum(s, i - 1), s[i])
Dot(a, b) == FSum([i \in DOMAIN a |-> FMul(a[i], b[i])], Len(a))
\* sum_i v[i] x^(n-i): Horner over the sequence
RECURSIVE Horner(_, _, _)
Horner(v, x, i) == IF i = 0 THEN << >> ELSE FAdd(FMul(Horner(v, x, i - 1), x), v[i])
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE RevBits(_, _)
RevBits(i, k) == IF k = 0 THEN 0 ELSE (i % 2) * 2^(k - 1) + RevBits(i \div 2, k - 1)
\* text
RECURSIVE Digits(_, _)                           \* most significant first, digits in base b
Digits(n, b) == IF BLess(n, << b >>) THEN << BToInt(n) >>
                ELSE Digits(BDiv(n, << b >>), b) \o << BToInt(BMod(n, << b >>)) >>
Char(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Text(n, b) == [i \in DOMAIN Digits(n, b) |-> Char(Digits(n, b)[i])]
ZeroPad(s, k) == [i \in 1..(IF Len(s) < k THEN k - Len(s) ELSE 0) |-> 48] \o s
Hex0x == << 48, 120 >>
Canonical == \A i \in DOMAIN r : BLess(r[i], p)
=============================================================================
