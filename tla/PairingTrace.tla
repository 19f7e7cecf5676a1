----------------------------- MODULE PairingTrace -----------------------------
(* Histories of pairings of known multiples of the two generators.              *)
EXTENDS Pairing, TraceBase
VARIABLES F12, g, rr, c1, c2
pvars == << F12, g, rr, c1, c2 >>
PInit == TInit /\ F12 = << <<7>>, << >> >> /\ g = << 1 >> /\ rr = << 7 >> /\ c1 = << >> /\ c2 = << >>
Cv(x) == [F |-> << E.p, x.ext >>, a |-> x.a, G |-> << x.gx, x.gy >>]
TBase == /\ Is("Base")
         /\ F12' = << E.p, E.ext >> /\ g' = E.v /\ rr' = E.r /\ c1' = Cv(E.c1) /\ c2' = Cv(E.c2)
         /\ PgGood(F12', E.v, E.r)
         /\ EcMul(c1'.F, c1'.a, c1'.G, E.r) = O
         /\ EcMul(c2'.F, c2'.a, c2'.G, E.r) = O
Same(c, pts, es) == Len(pts) = Len(es) /\ \A i \in DOMAIN es : Den(c.F, "A", pts[i]) = EcMul(c.F, c.a, c.G, es[i])
TPair == Is("Pair") /\ UNCHANGED pvars
         /\ Len(E.as) = Len(E.bs)
         /\ Same(c1, E.ps, E.as) /\ Same(c2, E.qs, E.bs)
         /\ TwIn(F12, E.v) /\ E.v = PgValue(F12, g, rr, E.as, E.bs)
\* the final exponentiation is a homomorphism onto the r-th roots of unity
TFinal == Is("Final") /\ UNCHANGED pvars
          /\ E.exy = TwMul(F12, E.ex, E.ey)
          /\ TwPow(F12, E.ex, rr) = TwOne(F12)
          /\ TwPow(F12, E.ey, rr) = TwOne(F12)
          /\ E.epow = TwPow(F12, E.ex, E.k)
End == TDone /\ UNCHANGED << t, l >> /\ UNCHANGED pvars
PNext == TBase \/ TPair \/ TFinal \/ End
=============================================================================
