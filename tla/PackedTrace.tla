----------------------------- MODULE PackedTrace -----------------------------
EXTENDS Packed, TraceBase
Init == TInit /\ F = << <<2>>, << >> >> /\ r = [i \in 1..NReg |-> [j \in 1..Lanes |-> << >>]]
A == r[E.a]
B == r[E.b]
Res(v) == E.v = v /\ r' = [r EXCEPT ![E.d] = v] /\ UNCHANGED F
Pure == UNCHANGED pkvars
TField == Is("Field")
          /\ F' = << E.p, E.ext >>
          /\ r' = [i \in 1..NReg |-> PkZero(F')]
          /\ E.lanes = Lanes
          /\ E.zero = PkZero(F') /\ E.one = PkAll(TwOne(F')) /\ E.minusone = PkAll(TwNeg(F', TwOne(F')))
          /\ \A i \in 1..Lanes : TwAdd(F', E.twoinv[i], E.twoinv[i]) = TwOne(F')
\* lanes written one by one, through a generator, or an element of scalars
TSet == Is("Set") /\ PkOk(E.v) /\ Res(E.v) /\ E.gen = E.v /\ E.read = E.v
TLane == Is("Lane") /\ Res([A EXCEPT ![E.i] = E.c])
TBroadcast == Is("Broadcast") /\ Res(PkAll(E.c))
TFromInt == Is("FromInt") /\ Res(PkAll(E.n))
TRandom == Is("Random") /\ PkOk(E.v) /\ Res(E.v)
TAdd == Is("Add") /\ Res(PkAdd(A, B))
TSub == Is("Sub") /\ Res(PkSub(A, B))
TMul == Is("Mul") /\ Res(PkMul(A, B))
TMulBase == Is("MulBase") /\ Res([i \in 1..Lanes |-> TwMul(F, A[i], TwEmbed(F, E.c[i]))])
TSquare == Is("Square") /\ Res(PkMul(A, A))
TDouble == Is("Double") /\ Res(PkAdd(A, A))
TNeg == Is("Neg") /\ Res(PkNeg(A))
TInv == Is("Inv") /\ Res(PkInv(A))
TDiv == Is("Div") /\ Res(PkDiv(A, B))
TPow == Is("Pow") /\ Res(PkPow(A, E.e))
TFrob == Is("Frob") /\ Res(A)
TCmp == Is("Cmp") /\ Pure
        /\ E.eq = (A = B) /\ E.ne = (A # B)
        /\ E.lt = ~E.ge /\ E.gt = ~E.le /\ E.le = (E.lt \/ E.eq) /\ E.ge = (E.gt \/ E.eq)
        /\ (TwLv(F) = 0 => E.lt = PkLess(A, B) /\ E.gt = PkLess(B, A))
        /\ (A = B => E.hasheq) /\ E.streq = (A = B)
        /\ E.z = (A = PkZero(F)) /\ E.o = (A = PkAll(TwOne(F))) /\ E.m = (A = PkAll(TwNeg(F, TwOne(F))))
TDot == Is("Dot") /\ Pure /\ E.v = PkSum([i \in DOMAIN E.x |-> PkMul(E.x[i], E.y[i])]) /\ E.vs = E.v
TBatchInv == Is("BatchInv") /\ Pure /\ E.ok /\ E.out = [i \in DOMAIN E.x |-> PkMul(E.c, PkInv(E.x[i]))]
TPowers == Is("Powers") /\ Pure
           /\ Len(E.v) = E.n
           /\ LET s == PkPows(E.c, E.n * Lanes)
              IN \A j \in 1..E.n : E.v[j] = [i \in 1..Lanes |-> s[(j - 1) * Lanes + i]]
TUnpacked == Is("Unpacked") /\ Pure /\ E.v = A        \* the scalar lanes, taken to the scalar extension field
Next == \/ TField \/ TSet \/ TLane \/ TBroadcast \/ TFromInt \/ TRandom \/ TAdd \/ TSub \/ TMul \/ TMulBase \/ TSquare
        \/ TDouble \/ TNeg \/ TInv \/ TDiv \/ TPow \/ TFrob \/ TCmp \/ TDot \/ TBatchInv \/ TPowers \/ TUnpacked
        \/ (TDone /\ UNCHANGED tvars /\ Pure)
Inv == PkCanonical
=============================================================================
