-------------------------------- MODULE EcSelf --------------------------------
(* Design model: the group laws of the chord-and-tangent operation on whole      *)
(* small curves, all representatives denote their point, Java agrees.            *)
EXTENDS Ec, TLC
AllCurves == {<<7, 0, 5>>, <<11, 1, 6>>, <<5, 1, 1>>, <<13, 10, 4>>}
CONSTANT Curves
VARIABLES c, P, Q, R
F(q) == << BFromInt(q), << >> >>
El(q) == {BFromInt(i) : i \in 0..(q - 1)}
A(k) == BFromInt(k[2])
Bc(k) == BFromInt(k[3])
Pts(k) == {O} \cup {p \in El(k[1]) \X El(k[1]) : OnCurve(F(k[1]), A(k), Bc(k), p)}
Init == c \in Curves /\ P \in Pts(c) /\ Q \in Pts(c) /\ R \in Pts(c)
Next == UNCHANGED << c, P, Q, R >>
G == F(c[1])
Plus(x, y) == EcAdd(G, A(c), x, y)
Laws == /\ OnCurve(G, A(c), Bc(c), Plus(P, Q)) /\ Plus(P, Q) = Plus(Q, P) /\ Plus(P, EcNeg(G, P)) = O
        /\ Plus(Plus(P, Q), R) = Plus(P, Plus(Q, R))
Agree == (R = O) => /\ Plus(P, Q) = QEcAdd(G, A(c), P, Q)
                    /\ \A k \in {<< >>, <<1>>, <<2>>, <<7>>, <<100>>} :
                         /\ EcMul(G, A(c), P, k) = QEcMul(G, A(c), P, k)
                         /\ EcMsm(G, A(c), <<P, Q>>, <<k, <<5>> >>) = QEcMsm(G, A(c), <<P, Q>>, <<k, <<5>> >>)
Reps == (Q = O /\ R = O /\ P # O) => \A z \in El(c[1]) \ {<< >>} :
   LET z2 == TwMul(G, z, z)
       z3 == TwMul(G, z2, z)
   IN /\ Den(G, "P", << TwMul(G, P[1], z), TwMul(G, P[2], z), z >>) = P
      /\ Den(G, "J", << TwMul(G, P[1], z2), TwMul(G, P[2], z3), z >>) = P
      /\ Den(G, "X", << TwMul(G, P[1], z2), TwMul(G, P[2], z3), z2, z3 >>) = P
      /\ WellFormed(G, "X", << P[1], P[2], z2, z3 >>)
=============================================================================
