------------------------------- MODULE ExtTrace -------------------------------
(* Histories of a register machine over an extension field F.                   *)
EXTENDS Tower, TraceBase
NReg == 5
VARIABLES F, r
evars == << F, r >>
Init == TInit /\ F = << <<2>>, << >> >> /\ r = [i \in 1..NReg |-> << >>]
A == r[E.a]
B == r[E.b]
Bs == TwBase(F)
Res(v) == E.v = v /\ r' = [r EXCEPT ![E.d] = v] /\ UNCHANGED F
None == E.v = "none" /\ UNCHANGED evars
Pure == UNCHANGED evars
Emb(c) == TwEmbed(F, c)
Minus1 == TwNeg(F, TwOne(F))

\* E.nrs: the declared non-residues level by level
TField == Is("Field")
          /\ F' = << E.p, E.ext >>
          /\ r' = [i \in 1..NReg |-> TwZero(F')]
          /\ E.zero = TwZero(F') /\ E.one = TwOne(F') /\ E.minusone = TwNeg(F', TwOne(F'))
          /\ TwAdd(F', E.twoinv, E.twoinv) = TwOne(F')
          /\ E.deg = Len(TwFlat(F', E.zero))
TSet == Is("Set") /\ TwIn(F, E.v) /\ Res(E.v) /\ E.flat = TwFlat(F, E.v) /\ E.back = E.v /\ E.iter = E.v
RECURSIVE BSmall(_)
BSmall(k) == IF k = 0 THEN TwZero(F) ELSE TwAdd(F, TwOne(F), BSmall(k - 1))
TFromInt == Is("FromInt") /\ E.v = BSmall(E.k) /\ Pure
TAdd == Is("Add") /\ Res(TwAdd(F, A, B))
TSub == Is("Sub") /\ Res(TwSub(F, A, B))
TMul == Is("Mul") /\ Res(TwMul(F, A, B))
TMulBase == Is("MulBase") /\ Res(TwMul(F, A, Emb(E.c)))
TSquare == Is("Square") /\ Res(TwMul(F, A, A))
TDouble == Is("Double") /\ Res(TwAdd(F, A, A))
TNeg == Is("Neg") /\ Res(TwNeg(F, A))
TInv == Is("Inv") /\ IF A = TwZero(F) THEN None
                     ELSE TwMul(F, A, E.v) = TwOne(F) /\ TwIn(F, E.v) /\ Res(E.v)
TDiv == Is("Div") /\ IF B = TwZero(F) THEN None
                     ELSE TwMul(F, B, E.v) = A /\ TwIn(F, E.v) /\ Res(E.v)
TPow == Is("Pow") /\ Res(TwPow(F, A, E.e))
TFrob == Is("Frob") /\ Res(TwPow(F, A, BPowI(F[1], E.k % E.deg)))
\* the non-trivial automorphism over the base field
TConj == Is("Conj") /\ Res([i \in 1..2 |-> IF i = 1 THEN A[1] ELSE TwNeg(Bs, A[2])])
RECURSIVE GeoSum(_, _)
GeoSum(q, k) == IF k = 0 THEN << >> ELSE BAdd(BPowI(q, k - 1), GeoSum(q, k - 1))
TNorm == Is("Norm") /\ Pure
         /\ Emb(E.v) = TwPow(F, A, GeoSum(TwSize(Bs), TwTop(F)[1]))
\* a unitary element: conj(a)/a; cyclotomic operations agree with the general ones
TCyclo == Is("Cyclo") /\ Pure
          /\ E.sq = TwMul(F, A, A) /\ E.sqin = E.sq
          /\ TwMul(F, A, E.inv) = TwOne(F) /\ E.invin = E.inv
          /\ E.pw = TwPow(F, A, E.e)
TSparse == Is("Sparse") /\ Res(TwMul(F, A, E.m))
TCmp == Is("Cmp") /\ Pure
        /\ E.eq = (A = B) /\ E.ne = (A # B) /\ E.lt = TwLess(F, A, B) /\ E.gt = TwLess(F, B, A)
        /\ E.le = ~TwLess(F, B, A) /\ E.ge = ~TwLess(F, A, B)
        /\ (A = B => E.hasheq) /\ (E.streq = (A = B))
        /\ E.z = (A = TwZero(F)) /\ E.o = (A = TwOne(F)) /\ E.m = (A = Minus1)
TBatchInv == Is("BatchInv") /\ Pure /\ E.ok
             /\ \A i \in DOMAIN E.x : IF E.x[i] = TwZero(F) THEN E.out[i] = TwZero(F)
                                      ELSE TwMul(F, E.x[i], E.out[i]) = E.c
TDot == Is("Dot") /\ Pure /\ E.v = E.vs
        /\ LET RECURSIVE S(_)
               S(i) == IF i = 0 THEN TwZero(F) ELSE TwAdd(F, S(i - 1), TwMul(F, E.x[i], E.y[i]))
           IN E.v = S(Len(E.x))
TNonResidue == Is("MulNr") /\ Pure /\ E.v = TwMul(Bs, TwTop(F)[2], E.c)
End == TDone /\ UNCHANGED << t, l, F, r >>
Next == \/ TField \/ TSet \/ TFromInt \/ TAdd \/ TSub \/ TMul \/ TMulBase \/ TSquare \/ TDouble \/ TNeg \/ TInv \/ TDiv \/ TPow
        \/ TFrob \/ TConj \/ TNorm \/ TCyclo \/ TSparse \/ TCmp \/ TBatchInv \/ TDot \/ TNonResidue \/ End
=============================================================================
