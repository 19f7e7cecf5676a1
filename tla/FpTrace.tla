-------------------------------- MODULE FpTrace --------------------------------
EXTENDS Fp, TraceBase
Init == TInit /\ p = << 2 >> /\ r = [i \in 1..NReg |-> << >>]

A == r[E.a]
B == r[E.b]
\* the answer of an operation goes to register d, is canonical, and equals (and
\* prints and hashes equal to) the element freshly made from that integer
Result(v) == /\ E.v = v /\ E.same
             /\ r' = [r EXCEPT ![E.d] = v] /\ UNCHANGED p
NoResult(a) == E.v = None /\ a /\ UNCHANGED fpvars
Pure == UNCHANGED fpvars

TField == Is("Field") /\ p' = E.p /\ r' = [i \in 1..NReg |-> << >>] /\ E.zero = << >> /\ E.one = << 1 >>
          /\ E.minusone = BSub(E.p, << 1 >>) /\ BMulMod(E.twoinv, << 2 >>, E.p) = << 1 >>
TSet == Is("Set") /\ BLess(E.v, p) /\ Result(E.v)
TFromInt == Is("FromInt") /\ Result(E.v) /\ E.v = E.n
TFromMont == Is("FromMont") /\ Result(BMulMod(E.m, FInv(BMod(BPow2(E.rbits), p)), p))
TRandom == Is("Random") /\ BLess(E.v, p) /\ Result(E.v)
TAdd == Is("Add") /\ Result(FAdd(A, B))
TSub == Is("Sub") /\ Result(FSub(A, B))
TMul == Is("Mul") /\ Result(FMul(A, B))
TSquare == Is("Square") /\ Result(FMul(A, A))
TDouble == Is("Double") /\ Result(FAdd(A, A))
TNeg == Is("Neg") /\ Result(FNeg(A))
TInv == Is("Inv") /\ IF A = << >> THEN NoResult(TRUE) ELSE Result(FInv(A))
TDiv == Is("Div") /\ IF B = << >> THEN NoResult(TRUE) ELSE Result(FDiv(A, B))
TPow == Is("Pow") /\ Result(FPow(A, E.e))
TScalarMul == Is("ScalarMul") /\ Result(FMul(A, BMod(E.e, p)))
TFrob == Is("Frob") /\ Result(A)
TCmp == Is("Cmp") /\ Pure
        /\ E.eq = (A = B) /\ E.ne = (A # B) /\ E.lt = BLess(A, B) /\ E.gt = BLess(B, A)
        /\ E.le = BLe(A, B) /\ E.ge = BLe(B, A)
        /\ (A = B => E.hasheq /\ E.streq)
        /\ (A # B => ~E.streq)
        /\ E.z = (A = << >>) /\ E.o = (A = << 1 >>) /\ E.m = (A = BSub(p, << 1 >>))
TText == Is("Text") /\ Pure
         /\ E.dec = Text(A, 10) /\ E.hex = Hex0x \o Text(A, 16)
         /\ E.hexpad = Hex0x \o ZeroPad(Text(A, 16), E.width)
         /\ E.backdec = A /\ E.backhex = A
TParse == Is("Parse") /\ Pure               \* digits of a number that need not be below p
          /\ E.v = IF BLess(E.n, p) THEN E.n ELSE None
TMpz == Is("Mpz") /\ Pure /\ E.v = A /\ E.back = A
TBatchInv == Is("BatchInv") /\ Pure
             /\ E.ok = E.fits
             /\ (E.fits => E.out = [i \in DOMAIN E.x |-> IF E.x[i] = << >> THEN << >> ELSE FMul(E.c, FInv(E.x[i]))])
TDot == Is("Dot") /\ Pure /\ E.v = Dot(E.x, E.y) /\ E.vs = E.v
TLin == Is("Lin") /\ Pure /\ E.fwd = Horner(E.x, E.c, Len(E.x)) /\ E.bwd = Horner(Reverse(E.x), E.c, Len(E.x))
        /\ E.fwdin = E.fwd /\ E.bwdin = E.bwd
TPowers == Is("Powers") /\ Pure
           /\ LET s == [i \in 1..E.n |-> FMul(E.c, FPow(A, BFromInt(i - 1)))]
              IN /\ E.pw = s
                 /\ (E.k >= 0 => LET q == [i \in 1..E.n |-> s[RevBits(i - 1, E.k) + 1]]
                                 IN E.rev = q /\ E.revs = q)
                 /\ E.mul = [i \in 1..E.n |-> FMul(A, BMod(BFromInt(i - 1), p))]
TMulti == Is("Multi") /\ Pure
          /\ E.msmb = [i \in DOMAIN E.x |-> FMul(E.x[i], E.y[i])]
          /\ E.mssb = [i \in DOMAIN E.x |-> FMul(E.x[i], A)]
          /\ E.ssmb = [i \in DOMAIN E.x |-> FMul(E.x[i], A)]
          /\ E.ok = (Len(E.x) > 0) /\ ~E.badlen
End == TDone /\ UNCHANGED << t, l, p, r >>
Next == \/ TField \/ TSet \/ TFromInt \/ TFromMont \/ TRandom \/ TAdd \/ TSub \/ TMul \/ TSquare \/ TDouble \/ TNeg
        \/ TInv \/ TDiv \/ TPow \/ TScalarMul \/ TFrob \/ TCmp \/ TText \/ TParse \/ TMpz \/ TBatchInv
        \/ TDot \/ TLin \/ TPowers \/ TMulti \/ End
Inv == Canonical
=============================================================================
