------------------------------ MODULE BigIntTrace ------------------------------
(* Fixed-width unsigned integers: every recorded operation equals the integer  *)
(* operation, reduced modulo 2^w, with truthful carry, borrow and high word.   *)
EXTENDS BigNat, TraceBase
M == BPow2(E.w)
Bn(x) == BFromInt(IF x THEN 1 ELSE 0)
\* the value of digits d (most significant first) in base b
RECURSIVE Horner(_, _, _, _)
Horner(d, b, i, acc) == IF i > Len(d) THEN acc ELSE Horner(d, b, i + 1, BAdd(BMul(acc, BFromInt(b)), BFromInt(d[i])))
Digits(d, b) == Horner(d, b, 1, << >>)
Canon(d, b) == Len(d) > 0 /\ (\A i \in DOMAIN d : d[i] \in 0..(b - 1)) /\ (d[1] = 0 => Len(d) = 1)
Rev(d) == [i \in DOMAIN d |-> d[Len(d) + 1 - i]]
\* signed digits d, least significant first, radix 2^k: sum of positives = a + sum of negatives
SignedParts(d, k, s) ==
  LET RECURSIVE H(_, _)
      H(i, acc) == IF i = 0 THEN acc
                   ELSE H(i - 1, BAdd(BShl(acc, k), BFromInt(IF s * d[i] > 0 THEN s * d[i] ELSE 0)))
  IN H(Len(d), << >>)
Recodes(d, k, a) == SignedParts(d, k, 1) = BAdd(a, SignedParts(d, k, -1))

TAdd == Is("Add") /\ LET s == BAdd(E.a, E.b) IN E.r = BMod(s, M) /\ E.c = BDiv(s, M) /\ E.same
TSub == Is("Sub") /\ E.same /\ IF BLess(E.a, E.b) THEN E.c = BOne /\ BAdd(E.r, E.b) = BAdd(E.a, M)
                               ELSE E.c = BZero /\ BAdd(E.r, E.b) = E.a
TMul == Is("Mul") /\ E.same /\ LET m == BMul(E.a, E.b) IN E.lo = BMod(m, M) /\ E.hi = BDiv(m, M)
TMulBy2 == Is("MulBy2") /\ E.same /\ LET s == BAdd(E.a, E.a) IN E.r = BMod(s, M) /\ E.c = BDiv(s, M)
TShl == Is("Shl") /\ E.same /\ E.r = BMod(BShl(E.a, E.n), M)
TShr == Is("Shr") /\ E.same /\ E.r = BShr(E.a, E.n) /\ E.h = BShr(E.a, 1)
TDiv == Is("Div") /\ E.same /\ E.b # BZero /\ BLess(E.r, E.b) /\ BAdd(BMul(E.q, E.b), E.r) = E.a
TDivZero == Is("DivZero") /\ E.b = BZero
TCmp == Is("Cmp") /\ E.eq = (E.a = E.b) /\ E.ne = (E.a # E.b) /\ E.lt = BLess(E.a, E.b) /\ E.gt = BLess(E.b, E.a)
        /\ E.le = BLe(E.a, E.b) /\ E.ge = BLe(E.b, E.a) /\ E.z = (E.a = BZero) /\ E.o = (E.a = BOne)
        /\ E.odd = BOdd(E.a) /\ E.even = ~BOdd(E.a)
TBits == Is("Bits") /\ E.same /\ E.and = BAnd(E.a, E.b) /\ E.or = BOr(E.a, E.b) /\ E.xor = BXor(E.a, E.b)
TExtract == Is("Extract") /\ E.v = BMod(BShr(E.a, E.off), BPow2(E.n)) /\ E.v32 = BMod(BShr(E.a, E.off), BPow2(E.n32))
TStr == Is("Str") /\ E.same /\ Canon(E.dec, 10) /\ Digits(E.dec, 10) = E.a
        /\ Canon(E.hex, 16) /\ Digits(E.hex, 16) = E.a
        /\ Len(E.hexp) = E.w \div 4 /\ Digits(E.hexp, 16) = E.a
TTooLong == Is("TooLong") /\ E.rej
TBytes == Is("Bytes") /\ E.same /\ E.le = Rev(E.be) /\ Digits(E.be, 256) = E.a
          /\ E.pl = BMod(E.a, BPow2(8 * E.n)) /\ E.pb = E.pl
TBitSet == Is("BitSet") /\ E.same /\ E.le = Rev(E.be) /\ Digits(E.be, 2) = E.a /\ E.p = BMod(E.a, BPow2(37))
TIter == Is("Iter") /\ Len(E.be) = E.w /\ Digits(E.be, 2) = E.a /\ E.le = Rev(E.be)
         /\ Digits(E.bs, 2) = E.a /\ Len(E.bs) = BBitLen(E.a)
         /\ (E.a # BZero => E.lt = Rev(E.bs))
TNaf == Is("Naf") /\ (\A i \in DOMAIN E.d : E.d[i] \in {-1, 0, 1})
        /\ (\A i \in 1..(Len(E.d) - 1) : E.d[i] = 0 \/ E.d[i + 1] = 0)
        /\ Recodes(E.d, 1, E.a)
TWindow == Is("Window") /\ Recodes(E.d, E.wb, E.a)
           /\ \A i \in 1..(Len(E.d) - 1) : E.d[i] >= -(2^(E.wb - 1)) /\ E.d[i] < 2^(E.wb - 1)
TRandom == Is("Random") /\ BLess(E.r, E.m)
RECURSIVE BGcd(_, _)
BGcd(a, b) == IF b = << >> THEN a ELSE BGcd(b, BMod(a, b))
TByInv == Is("ByInv") /\ E.ok = (BGcd(E.m, E.x) = BOne)
          /\ (E.ok => BLess(E.o, E.m) /\ BMulMod(E.o, E.x, E.m) = BMod(E.adj, E.m))
TGmp == Is("Gmp") /\ E.o = E.a /\ E.nb = 64 * ((BBitLen(E.a) + 63) \div 64) /\ E.tb = (BBit(E.a, E.k) = 1)
        /\ E.s = BOr(E.a, BPow2(E.k)) /\ E.z = (E.a = BZero)
        /\ E.c = (IF E.tb THEN BSub(E.a, BPow2(E.k)) ELSE E.a)
TExt == Is("Ext") /\ E.x = E.a /\ E.y = E.a /\ E.t = (BBit(E.a, E.k) = 1)
        /\ E.s = (IF E.k < E.w THEN BOr(E.a, BPow2(E.k)) ELSE E.a)
        /\ E.c = (IF E.t THEN BSub(E.a, BPow2(E.k)) ELSE E.a)
TP64 == Is("P64") /\ LET s == BAdd(BAdd(E.a, E.b), E.k)
                         m == BAdd(BAdd(E.a, BMul(E.b, E.c)), E.kk)
                     IN /\ E.sr = BMod(s, M) /\ E.sc = BDiv(s, M)
                        /\ E.mlo = BMod(m, M) /\ E.mhi = BDiv(m, M)
                        /\ E.db = Bn(BLess(E.a, BAdd(E.b, E.k)))
                        /\ BAdd(E.dr, BAdd(E.b, E.k)) = BAdd(E.a, BMul(M, E.db))
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
TEgcd == Is("Egcd") /\ E.s * E.x + E.t * E.y = E.r /\ Abs(E.r) = Gcd(Abs(E.x), Abs(E.y)) /\ E.v
End == TDone /\ UNCHANGED << t, l >>
Init == TInit
Next == \/ TAdd \/ TSub \/ TMul \/ TMulBy2 \/ TShl \/ TShr \/ TDiv \/ TDivZero \/ TCmp \/ TBits \/ TExtract \/ TStr \/ TTooLong
        \/ TBytes \/ TBitSet \/ TIter \/ TNaf \/ TWindow \/ TRandom \/ TByInv \/ TGmp \/ TExt \/ TP64 \/ TEgcd \/ End
=============================================================================
