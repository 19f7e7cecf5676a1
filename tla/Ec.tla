---------------------------------- MODULE Ec ----------------------------------
(* The chord-and-tangent group of y^2 = x^3 + a x + b over a field F of Tower.  *)
(* A point is the identity O = << >> or << x, y >>.  [J]: see java/Ec.java.       *)
EXTENDS Tower
O == << >>
\* IF and not a disjunction: TLC explores both sides of a disjunction in an action
OnCurve(F, a, b, P) == IF P = O THEN TRUE
  ELSE TwMul(F, P[2], P[2]) = TwAdd(F, TwAdd(F, TwMul(F, TwMul(F, P[1], P[1]), P[1]), TwMul(F, a, P[1])), b)
EcNeg(F, P) == IF P = O THEN O ELSE << P[1], TwNeg(F, P[2]) >>
QChord(F, P, Q, l) ==
  LET x == TwSub(F, TwSub(F, TwMul(F, l, l), P[1]), Q[1])
  IN << x, TwSub(F, TwMul(F, l, TwSub(F, P[1], x)), P[2]) >>
QEcAdd(F, a, P, Q) ==
  IF P = O THEN Q ELSE IF Q = O THEN P
  ELSE IF P[1] = Q[1]
       THEN IF TwAdd(F, P[2], Q[2]) = TwZero(F) THEN O
            ELSE LET s == TwMul(F, P[1], P[1])
                 IN QChord(F, P, Q, TwMul(F, TwAdd(F, TwAdd(F, s, TwAdd(F, s, s)), a), TwInv(F, TwAdd(F, P[2], P[2]))))
       ELSE QChord(F, P, Q, TwMul(F, TwSub(F, Q[2], P[2]), TwInv(F, TwSub(F, Q[1], P[1]))))
RECURSIVE QEcMul(_, _, _, _)
QEcMul(F, a, P, k) == IF k = << >> THEN O
                      ELSE LET h == QEcMul(F, a, P, BShr(k, 1))
                               d == QEcAdd(F, a, h, h)
                           IN IF BOdd(k) THEN QEcAdd(F, a, d, P) ELSE d
RECURSIVE QEcMsm(_, _, _, _)
QEcMsm(F, a, Ps, ks) == IF ks = << >> THEN O
                        ELSE QEcAdd(F, a, QEcMul(F, a, Ps[1], ks[1]), QEcMsm(F, a, Tail(Ps), Tail(ks)))
EcAdd(F, a, P, Q) == QEcAdd(F, a, P, Q)          \* [J]
EcMul(F, a, P, k) == QEcMul(F, a, P, k)          \* [J]
EcMsm(F, a, Ps, ks) == QEcMsm(F, a, Ps, ks)      \* [J]
EcSub(F, a, P, Q) == EcAdd(F, a, P, EcNeg(F, Q))
-----------------------------------------------------------------------------
(* The point denoted by coordinates c of a kind: "A" affine with (0, 0) for O,  *)
(* "P" projective, "J" Jacobian, "X" extended Jacobian.                          *)
Den(F, k, c) ==
  LET Z == TwZero(F)
  IN IF k = "A" THEN IF c[1] = Z /\ c[2] = Z THEN O ELSE << c[1], c[2] >>
     ELSE IF c[3] = Z THEN O
     ELSE LET i == TwInv(F, c[3])
              i2 == TwMul(F, i, i)
          IN IF k = "P" THEN << TwMul(F, c[1], i), TwMul(F, c[2], i) >>
             ELSE IF k = "J" THEN << TwMul(F, c[1], i2), TwMul(F, c[2], TwMul(F, i2, i)) >>
             ELSE << TwMul(F, c[1], i), TwMul(F, c[2], TwInv(F, c[4])) >>
\* the coordinates are a legitimate representative
WellFormed(F, k, c) ==
  k = "X" => TwMul(F, c[3], TwMul(F, c[3], c[3])) = TwMul(F, c[4], c[4])
=============================================================================
