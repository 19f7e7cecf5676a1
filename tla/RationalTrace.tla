---------------------------- MODULE RationalTrace ----------------------------
(* Recorded histories of fractions and possibly unknown values.               *)
EXTENDS Rational, TraceBase
Init == TInit /\ p = << 3 >> /\ r = [i \in 1..NReg |-> << >>]
Put(d0, v0) == r' = [r EXCEPT ![d0] = v0] /\ UNCHANGED p
Same == UNCHANGED << p, r >>
TBegin == Is("Begin") /\ p' = E.p /\ r' = [i \in 1..NReg |-> << >>]
TSet == /\ Is("Set")
        /\ LET v0 == TLCEval(IF E.unknown THEN Unknown
                             ELSE CASE E.how = "pair" -> FDiv(E.a, E.b) [] E.how = "num" -> E.a [] E.how = "zero" -> << >>
                                    [] E.how = "one" -> One [] E.how = "mone" -> MinusOne [] E.how = "half" -> FInv(FAdd(One, One))
                                    [] E.how = "rand" -> FDiv(E.n, E.d))
           IN Shows(E, v0) /\ Put(E.to, v0)
TBin == /\ Is("Bin")
        /\ LET y0 == IF E.plain THEN E.bv ELSE r[E.b] IN
           IF Refused(E.o, y0) THEN ~E.ok /\ (E.place => Shows(E, r[E.to])) /\ Same
           ELSE LET v0 == TLCEval(Bin(E.o, r[E.a], y0))
                IN E.ok /\ Shows(E, v0) /\ Put(E.to, v0)
TUn == /\ Is("Un")
       /\ IF Refused(E.o, r[E.a]) THEN ~E.ok /\ (E.place => Shows(E, r[E.to])) /\ Same
          ELSE LET v0 == TLCEval(Un(E.o, r[E.a])) IN E.ok /\ Shows(E, v0) /\ Put(E.to, v0)
TPow == /\ Is("Pow") /\ LET v0 == TLCEval(FPow(r[E.a], E.e)) IN Shows(E, v0) /\ Put(E.to, v0)
TScale == /\ Is("Scale") /\ LET v0 == TLCEval(FMul(r[E.a], BMod(E.e, p))) IN Shows(E, v0) /\ Put(E.to, v0)
TDot == /\ Is("Dot") /\ LET v0 == TLCEval(Dot([i \in 1..Len(E.a) |-> r[E.a[i]]], [i \in 1..Len(E.b) |-> r[E.b[i]]])) IN Shows(E, v0) /\ Put(E.to, v0)
TAsk == /\ Is("Ask") /\ Same
        /\ LET v0 == r[E.a] IN
           /\ E.zero = (v0 = << >>) /\ E.one = (v0 = One) /\ E.mone = (v0 = MinusOne)
           /\ E.none = ~Known(v0)
           /\ (E.ev => E.val = v0)
TCmp == /\ Is("Cmp") /\ Same
        /\ LET same == r[E.a] = r[E.b] IN
           /\ E.eq = same /\ E.ne = ~same
           /\ (E.ord => /\ E.le = ~E.gt /\ E.ge = ~E.lt
                        /\ (same => ~E.lt /\ ~E.gt) /\ (~same => E.lt # E.gt)
                        /\ E.rlt = E.gt /\ E.rgt = E.lt
                        /\ (E.plain => E.lt = BLess(r[E.a], r[E.b])))
TBatch == /\ Is("Batch") /\ Same
          /\ E.ok = E.fits
          /\ (E.ok => /\ Len(E.res) = Len(E.ns)
                      /\ \A i \in 1..Len(E.ns) : E.res[i] = Batched(E.ns[i], E.ds[i], E.c))
\* inverses together: zero has none and is left out
TBatchInv == /\ Is("BatchInv") /\ Same
             /\ E.ok = E.fits
             /\ (E.ok => \A i \in 1..Len(E.ns) : LET v0 == FDiv(E.ns[i], E.ds[i])
                           IN v0 # << >> => Denotes(E.rn[i], E.rd[i], FMul(E.c, FInv(v0))))
TConv == /\ Is("Conv") /\ Same /\ Shows(E, r[E.a])
Next == TBegin \/ TSet \/ TBin \/ TUn \/ TPow \/ TScale \/ TDot \/ TAsk \/ TCmp \/ TBatch \/ TBatchInv \/ TConv
        \/ (TDone /\ UNCHANGED tvars /\ Same)
=============================================================================
