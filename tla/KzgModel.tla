------------------------------- MODULE KzgModel -------------------------------
(* The two opening arguments over the field of five elements, for every trapdoor, *)
(* challenge, pattern of queries and small polynomials: honest proofs of true     *)
(* claims are accepted, and no honest proof carries over to a changed claim.      *)
EXTENDS Kzg, Integers, TLC
K == << << 5 >>, << >> >>
B(i) == BFromInt(i)
Poly2 == { PoTrim(K, << B(a), B(b) >>) : a \in 0..4, b \in 0..4 }
Small == { PoTrim(K, << B(a), B(b), << 1 >> >>) : a \in 0..1, b \in 0..1 } \cup { << >>, << <<2>> >> }
Patterns == { << <<1, 1>>, <<2, 1>> >>, << <<1, 1>>, <<2, 2>> >>, << <<2, 2>>, <<1, 1>>, <<2, 1>>, <<1, 2>> >>, << <<1, 2>>, <<2, 1>>, <<1, 1>> >> }
VARIABLES ps, tau, pat, v, y, u
vars == << ps, tau, pat, v, y, u >>
Init == /\ ps \in Poly2 \X Small
        /\ tau \in { B(i) : i \in 0..4 }
        /\ pat \in Patterns
        /\ v \in { B(1), B(3) } /\ y \in { B(2), B(4) }
        /\ u \in { B(0), B(3), B(4) }           \* never one of the points 1 and 2
Next == UNCHANGED vars
Os == [k \in DOMAIN pat |-> [i |-> pat[k][1], x |-> B(pat[k][2]), y |-> PoEval(K, ps[pat[k][1]], B(pat[k][2]))]]
Bad(k, d) == [Os EXCEPT ![k].y = TwAdd(K, Os[k].y, d)]
Cs == [i \in 1..2 |-> PoEval(K, ps[i], tau)]
Ws == LET s == GwProve(K, ps, Os, v) IN [i \in DOMAIN s |-> PoEval(K, s[i], tau)]
H == ShHead(K, ps, Os, y, v)
Q == ShQuot(K, ps, Os, y, v, u, H)
Complete == /\ GwAccepts(K, tau, Cs, Os, v, IF u = << >> THEN << 1 >> ELSE u, Ws)
            /\ ShAccepts(K, tau, Cs, Os, y, v, u, PoEval(K, H, tau), PoEval(K, Q, tau))
\* a single changed claim is carried by a factor that is not zero
GwSound == \A k \in DOMAIN pat : ~GwAccepts(K, tau, Cs, Bad(k, << 1 >>), v, IF u = << >> THEN << 1 >> ELSE u, Ws)
ShSound == \A k \in DOMAIN pat : ~ShAccepts(K, tau, Cs, Bad(k, << 2 >>), y, v, u, PoEval(K, H, tau), PoEval(K, Q, tau))
\* contradictory claims never pass
ShClash == ~ShAccepts(K, tau, Cs, Append(Os, [Os[1] EXCEPT !.y = TwAdd(K, Os[1].y, << 3 >>)]), y, v, u, PoEval(K, H, tau), PoEval(K, Q, tau))
=============================================================================
