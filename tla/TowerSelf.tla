------------------------------ MODULE TowerSelf ------------------------------
(* Compares Tower.java with the definitions of Tower.tla; also checks the field *)
(* laws on them in GF(5^2), GF(5^4) samples and GF(7^3).                        *)
EXTENDS Tower, TLC
VARIABLES F, a, b, c
F52 == << <<5>>, << << 2, <<2>> >> >> >>
F54 == << <<5>>, << << 2, <<2>> >>, << 2, << << >>, <<1>> >> >> >> >>
F73 == << <<7>>, << << 3, <<2>> >> >> >>
P0(q) == {BFromInt(i) : i \in 0..(q - 1)}
El(G) == IF G = F52 THEN {<< x, y >> : x \in {<< >>, <<1>>, <<3>>}, y \in {<< >>, <<2>>, <<4>>}}
         ELSE IF G = F73 THEN {<< x, y, z >> : x \in {<< >>, <<1>>, <<5>>}, y \in {<< >>, <<6>>}, z \in {<< >>, <<3>>}}
         ELSE {<< << x, y >>, << z, w >> >> : x \in {<< >>, <<2>>}, y \in {<< >>, <<4>>}, z \in {<< >>, <<3>>}, w \in {<< >>, <<1>>}}
Init == F \in {F52, F54, F73} /\ a \in El(F) /\ b \in El(F) /\ c = a
Next == UNCHANGED << F, a, b, c >>
Agree == /\ TwAdd(F, a, b) = QAdd(F, a, b) /\ TwNeg(F, a) = QNeg(F, a) /\ TwAdd(F, TwSub(F, a, b), b) = a
         /\ TwMul(F, a, b) = QMul(F, a, b) /\ TwPow(F, a, <<5>>) = TwMul(F, a, TwMul(F, TwMul(F, a, a), TwMul(F, a, a)))
         /\ (a # TwZero(F) => TwMul(F, a, TwInv(F, a)) = TwOne(F) /\ TwInv(F, a) = TwPow(F, a, BSub(TwSize(F), << 2 >>)))
Laws == /\ TwMul(F, a, b) = TwMul(F, b, a)
        /\ TwMul(F, a, TwAdd(F, b, TwOne(F))) = TwAdd(F, TwMul(F, a, b), a)
        /\ TwMul(F, TwMul(F, a, b), a) = TwMul(F, a, TwMul(F, b, a))
        /\ TwPow(F, TwAdd(F, a, b), F[1]) = TwAdd(F, TwPow(F, a, F[1]), TwPow(F, b, F[1]))
=============================================================================
