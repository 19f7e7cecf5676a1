------------------------------ MODULE MsmTrace ------------------------------
(* Multi-scalar multiplication: whatever the algorithm, window and threads, the  *)
(* result denotes the sum of the scalar multiples; see also Pippenger.tla.        *)
EXTENDS EcTrace
Ds(xs) == [i \in DOMAIN xs |-> D(xs[i])]
Sum(ps, ks) == EcMsm(F, ab[1], ps, ks)
TMsm == Is("Msm") /\ Pure
        /\ E.ok = (Len(E.x) = Len(E.ks))
        /\ (E.ok => Good(E.v) /\ D(E.v) = Sum(Ds(E.x), E.ks))
TFixed == Is("Fixed") /\ Pure /\ E.ok = E.fits
          /\ (E.ok => \A i \in DOMAIN E.ks : D(E.out[i]) = Mul(D(E.x), E.ks[i]))
TBuckets == Is("Buckets") /\ Pure
            /\ D(E.v) = Plus(D(E.init), Sum(Ds(E.x), [i \in DOMAIN E.x |-> BFromInt(i)]))
TWindows == Is("Windows") /\ Pure
            /\ D(E.v) = Sum(Ds(E.x), [i \in DOMAIN E.x |-> BPow2(E.w * (i - 1))])
\* the residue of a signed number modulo r
SRes(neg, a, q) == LET m == BMod(a, q) IN IF neg /\ m # << >> THEN BSub(q, m) ELSE m
TGlv == Is("Glv") /\ Pure
        /\ E.k = BMod(BAdd(SRes(E.n1, E.k1, E.r), BMul(E.lambda, SRes(E.n2, E.k2, E.r))), E.r)
TEndo == Is("Endo") /\ Pure /\ D(E.v) = Mul(D(E.x), E.lambda)
TGlvMul == Is("GlvMul") /\ Pure /\ D(E.v) = Mul(D(E.x), E.k)
MNext == Next \/ TMsm \/ TFixed \/ TBuckets \/ TWindows \/ TGlv \/ TEndo \/ TGlvMul
=============================================================================
