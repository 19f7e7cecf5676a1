------------------------------- MODULE PolySelf -------------------------------
(* Compares Poly.java with the definitions of Poly.tla, and checks the ring and *)
(* division laws on every pair of polynomials of degree < 3 over GF(3) and on   *)
(* samples over GF(5^2).                                                        *)
EXTENDS Poly, TLC
VARIABLES F, a, b, x
F3 == << <<3>>, << >> >>
F52 == << <<5>>, << << 2, <<2>> >> >> >>
C3 == {<< >>, <<1>>, <<2>>}
C5 == {<< << >>, << >> >>, << <<3>>, << >> >>, << <<1>>, <<4>> >>}
Polys(G, C) == {PoTrim(G, << u, v, w >>) : u \in C, v \in C, w \in C}
Init == \/ F = F3 /\ a \in Polys(F3, C3) /\ b \in Polys(F3, C3) /\ x \in C3
        \/ F = F52 /\ a \in Polys(F52, C5) /\ b \in Polys(F52, C5) /\ x = << <<2>>, <<1>> >>
Next == UNCHANGED << F, a, b, x >>
Agree == /\ PoAdd(F, a, b) = QPoAdd(F, a, b)
         /\ PoSub(F, a, b) = QPoAdd(F, a, PoNeg(F, b))
         /\ PoScale(F, a, x) = QPoScale(F, a, x)
         /\ PoMul(F, a, b) = QPoMul(F, a, b)
         /\ PoEval(F, a, x) = QPoEval(F, a, x)
         /\ (b # << >> => PoDivMod(F, a, b) = QPoDivMod(F, a, b))
         /\ PoRoots(F, a) = QPoRoots(F, a)
         /\ PoEvalsAt(F, a, x, x, 3) = << PoEval(F, a, x), PoEval(F, a, TwMul(F, x, x)), PoEval(F, a, TwMul(F, x, TwMul(F, x, x))) >>
Laws == /\ PoMul(F, a, b) = PoMul(F, b, a)
        /\ PoEval(F, PoMul(F, a, b), x) = TwMul(F, PoEval(F, a, x), PoEval(F, b, x))
        /\ PoEval(F, PoAdd(F, a, b), x) = TwAdd(F, PoEval(F, a, x), PoEval(F, b, x))
        /\ (b # << >> => LET d == PoDivMod(F, a, b) IN PoAdd(F, PoMul(F, d[1], b), d[2]) = a /\ Len(d[2]) < Len(b))
        /\ \A i \in 1..Len(a) : PoEval(F, PoRoots(F, a), a[i]) = TwZero(F)
        \* folding: f(y) = e(y^2) + y o(y^2) gives (fold_y f)(y^2) = f(y)
        /\ PoEval(F, PoFold(F, a, x), TwMul(F, x, x)) = PoEval(F, a, x)
=============================================================================
