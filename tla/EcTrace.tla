------------------------------- MODULE EcTrace -------------------------------
(* Histories of a register machine over an elliptic curve; every register holds  *)
(* a group element, whatever coordinates the code keeps it in.                    *)
EXTENDS Ec, TraceBase
NReg == 5
VARIABLES F, ab, r
evars == << F, ab, r >>
Init == TInit /\ F = << <<7>>, << >> >> /\ ab = << << >>, <<5>> >> /\ r = [i \in 1..NReg |-> O]
A == r[E.a]
B == r[E.b]
D(x) == Den(F, x.k, x.c)
Good(x) == WellFormed(F, x.k, x.c) /\ \A i \in DOMAIN x.c : TwIn(F, x.c[i])
Plus(p, q) == EcAdd(F, ab[1], p, q)
Minus(p, q) == EcSub(F, ab[1], p, q)
Mul(p, k) == EcMul(F, ab[1], p, k)
Res(p) == Good(E.v) /\ D(E.v) = p /\ r' = [r EXCEPT ![E.d] = p] /\ UNCHANGED << F, ab >>
Pure == UNCHANGED evars
TCurve == Is("Curve") /\ F' = << E.p, E.ext >> /\ ab' = << E.ca, E.cb >> /\ r' = [i \in 1..NReg |-> O]
          /\ OnCurve(F', E.ca, E.cb, << E.gx, E.gy >>)
          /\ (E.prime => Mul(<< >>, << >>) = O /\ EcMul(F', E.ca, << E.gx, E.gy >>, E.n) = O)
TSet == Is("Set") /\ OnCurve(F, ab[1], ab[2], D(E.v)) /\ Res(D(E.v))
TAdd == Is("Add") /\ Res(Plus(A, B))
TSub == Is("Sub") /\ Res(Minus(A, B))
TDouble == Is("Double") /\ Res(Plus(A, A))
TNeg == Is("Neg") /\ Res(EcNeg(F, A))
TConv == Is("Conv") /\ Res(A)
TMul == Is("Mul") /\ Res(Mul(A, E.e))
TCmp == Is("Cmp") /\ Pure /\ E.eq = (A = B) /\ E.ne = (A # B) /\ E.az = (A = O) /\ E.bz = (B = O)
TOn == Is("OnCurve") /\ Pure        \* the coordinates need not be those of a curve point
       /\ E.on = (D(E.x) # O /\ OnCurve(F, ab[1], ab[2], D(E.x)))
TBatch == Is("Batch") /\ Pure
          /\ E.ok = E.fits
          /\ (E.fits => Len(E.out) = Len(E.x) /\ \A i \in DOMAIN E.x : D(E.out[i]) = D(E.x[i]))
TMulti == Is("Multi") /\ Pure
          /\ E.ok = (E.fits /\ Len(E.ks) > 0)
          /\ (E.ok => \A i \in DOMAIN E.ks : D(E.out[i]) = Mul(D(E.x[i]), E.ks[i]))
TBatchMap == Is("BatchMap") /\ Pure
          /\ E.ok = E.fits
          /\ (E.ok => \A i \in DOMAIN E.ks : D(E.out[i]) = Mul(D(E.x), E.ks[i]))
TLin == Is("Lin") /\ Pure
        /\ LET n == Len(E.x)
               RECURSIVE Fw(_)
               Fw(i) == IF i = 0 THEN O ELSE Plus(Mul(Fw(i - 1), E.e), D(E.x[i]))
               RECURSIVE Bw(_)
               Bw(i) == IF i > n THEN O ELSE Plus(Mul(Bw(i + 1), E.e), D(E.x[i]))
           IN D(E.fwd) = Fw(n) /\ D(E.bwd) = Bw(1) /\ (n > 0 => D(E.fwdin) = Fw(n) /\ D(E.bwdin) = Bw(1))
TSucc == Is("Succ") /\ Pure
         /\ \A i \in DOMAIN E.out : D(E.out[i]) = Mul(A, BFromInt(i - 1))
         /\ Len(E.out) = E.n
\* x, and whether the odd root is wanted; only over prime fields
Rhs(x) == TwAdd(F, TwAdd(F, TwMul(F, TwMul(F, x, x), x), TwMul(F, ab[1], x)), ab[2])
IsSq(z) == z = << >> \/ BPowMod(z, BShr(F[1], 1), F[1]) = << 1 >>
TFromX == Is("FromX") /\ Pure
          /\ E.ok = IsSq(Rhs(E.x))
          /\ (E.ok => LET p == D(E.v)
                      IN /\ (IF p = O THEN FALSE ELSE p[1] = E.x /\ TwMul(F, p[2], p[2]) = Rhs(E.x))
                         /\ (p[2] # << >> => BOdd(p[2]) = E.odd))
End == TDone /\ UNCHANGED << t, l, F, ab, r >>
Next == \/ TCurve \/ TSet \/ TAdd \/ TSub \/ TDouble \/ TNeg \/ TConv \/ TMul \/ TCmp \/ TOn \/ TBatch \/ TMulti
        \/ TBatchMap \/ TLin \/ TSucc \/ TFromX \/ End
Inv == \A i \in DOMAIN r : r[i] = O \/ OnCurve(F, ab[1], ab[2], r[i])
=============================================================================
