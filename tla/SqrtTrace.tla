------------------------------- MODULE SqrtTrace -------------------------------
(* Quadratic characters, square roots and roots of unity of a prime field.       *)
EXTENDS BigNat, TraceBase
VARIABLES p, sub            \* the prime; << small base, adicity >>
Init == TInit /\ p = << 7 >> /\ sub = << 0, 0 >>
vars == << t, l, p, sub >>
Pure == UNCHANGED << p, sub >>
Half == BShr(p, 1)
Euler(a) == IF a = << >> THEN 0 ELSE IF BPowMod(a, Half, p) = << 1 >> THEN 1 ELSE 0 - 1
\* 2-adicity of p - 1
RECURSIVE Val(_, _)
Val(n, q) == IF n # << >> /\ BMod(n, << q >>) = << >> THEN 1 + Val(BDiv(n, << q >>), q) ELSE 0
TwoAd == Val(BSub(p, << 1 >>), 2)
RECURSIVE BPw(_, _)
BPw(q, k) == IF k = 0 THEN << 1 >> ELSE BMul(<< q >>, BPw(q, k - 1))
\* n = 2^a * base^b with a, b within the field's declared subgroup
Offered(n) == LET a == Val(n, 2)
                  b == IF sub[1] = 0 THEN 0 ELSE Val(n, sub[1])
              IN /\ n = BMul(BPow2(a), IF sub[1] = 0 THEN << 1 >> ELSE BPw(sub[1], b))
                 /\ a <= TwoAd /\ b <= sub[2]
Primes == {2} \cup (IF sub[1] = 0 THEN {} ELSE {sub[1]})
OrderIs(w, n) == /\ BPowMod(w, n, p) = << 1 >>
                 /\ \A q \in Primes : BMod(n, << q >>) = << >> => BPowMod(w, BDiv(n, << q >>), p) # << 1 >>
TField == Is("Field") /\ p' = E.p /\ sub' = << E.base, E.ad >>
          /\ (E.base = 0 \/ BMod(BSub(E.p, << 1 >>), BPw(E.base, E.ad)) = << >>)
TLeg == Is("Leg") /\ Pure /\ E.v = Euler(E.a)
TSqrt == Is("Sqrt") /\ Pure /\ E.ok = (Euler(E.a) >= 0) /\ BLess(E.v, p)
         /\ (E.ok => BMulMod(E.v, E.v, p) = E.a)
TRoot == Is("Root") /\ Pure /\ E.ok = Offered(E.n) /\ (E.ok => BLess(E.v, p) /\ OrderIs(E.v, E.n))
End == TDone /\ UNCHANGED vars
Next == TField \/ TLeg \/ TSqrt \/ TRoot \/ End
=============================================================================
