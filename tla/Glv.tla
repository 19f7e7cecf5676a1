--------------------------------- MODULE Glv ---------------------------------
(* Splitting a scalar k as k1 + lambda k2 with a short lattice basis, and the      *)
(* joint double-and-add over the two halves, for every k of a small curve          *)
(* (order R, see harness/BUILD.vh).  Points are residues: P = 1, phi(P) = Lambda.  *)
EXTENDS Integers
CONSTANTS R, Lambda
Basis == << << -63, 64 >>, << -127, -63 >> >>
VARIABLES k, i, acc
vars == << k, i, acc >>
Abs(x) == IF x < 0 THEN -x ELSE x
Trunc(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)   \* C++ / GMP division
B1(x) == Trunc(x * Basis[2][2], R)
B2(x) == Trunc(x * (-Basis[1][2]), R)
K1(x) == x - (B1(x) * Basis[1][1] + B2(x) * Basis[2][1])
K2(x) == -(B1(x) * Basis[1][2] + B2(x) * Basis[2][2])
Recombines == (K1(k) + Lambda * K2(k)) % R = k
Short == Abs(K1(k)) < 256 /\ Abs(K2(k)) < 256
Bit(x, j) == (x \div 2^j) % 2
Init == k \in 0..(R - 1) /\ i = 8 /\ acc = 0
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Step == /\ i > 0 /\ i' = i - 1 /\ UNCHANGED k
        /\ acc' = (2 * acc + Bit(Abs(K1(k)), i - 1) * Sgn(K1(k)) + Bit(Abs(K2(k)), i - 1) * Sgn(K2(k)) * Lambda) % R
Next == Step
Correct == i = 0 => acc = k
=============================================================================
