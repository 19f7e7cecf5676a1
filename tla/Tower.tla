-------------------------------- MODULE Tower --------------------------------
(* Towers of field extensions.  A field is F = << p, ext >>: p the prime (a     *)
(* BigNat), ext a sequence of levels << d, nr >>: level i adjoins a root x of    *)
(* x^d = nr to level i-1.  An element of level 0 is a BigNat below p; one of     *)
(* level i is the sequence of its d coefficients in level i-1, constant first.  *)
(* The operators marked [J] have an equivalent Java evaluation (Tower.java).    *)
EXTENDS BigNat

TwLv(F) == Len(F[2])
TwBase(F) == << F[1], SubSeq(F[2], 1, Len(F[2]) - 1) >>
TwTop(F) == F[2][Len(F[2])]
RECURSIVE TwZero(_)
TwZero(F) == IF TwLv(F) = 0 THEN << >> ELSE [i \in 1..TwTop(F)[1] |-> TwZero(TwBase(F))]
TwEmbed(F, c) == [i \in 1..TwTop(F)[1] |-> IF i = 1 THEN c ELSE TwZero(TwBase(F))]
RECURSIVE TwOne(_)
TwOne(F) == IF TwLv(F) = 0 THEN BMod(<< 1 >>, F[1]) ELSE TwEmbed(F, TwOne(TwBase(F)))
RECURSIVE QAdd(_, _, _)
QAdd(F, a, b) == IF TwLv(F) = 0 THEN BAddMod(a, b, F[1])
                 ELSE [i \in 1..TwTop(F)[1] |-> QAdd(TwBase(F), a[i], b[i])]
RECURSIVE QNeg(_, _)
QNeg(F, a) == IF TwLv(F) = 0 THEN BSubMod(<< >>, a, F[1])
              ELSE [i \in 1..TwTop(F)[1] |-> QNeg(TwBase(F), a[i])]
RECURSIVE QMul(_, _, _)
RECURSIVE QSumP(_, _, _, _, _, _)
\* sum over i of a[i] * b[k - i], coefficients numbered from 1, k = exponent + 2
QSumP(B, a, b, d, k, i) ==
  IF i > d THEN TwZero(B)
  ELSE LET rest == QSumP(B, a, b, d, k, i + 1)
       IN IF k - i \in 1..d THEN QAdd(B, QMul(B, a[i], b[k - i]), rest) ELSE rest
QMul(F, a, b) ==
  IF TwLv(F) = 0 THEN BMulMod(a, b, F[1])
  ELSE LET B == TwBase(F)
           d == TwTop(F)[1]
           nr == TwTop(F)[2]
           C(k) == QSumP(B, a, b, d, k + 2, 1)        \* coefficient of x^k
       IN [i \in 1..d |-> IF i + d - 1 <= 2 * d - 2
                          THEN QAdd(B, C(i - 1), QMul(B, nr, C(i - 1 + d)))
                          ELSE C(i - 1)]
RECURSIVE QPow(_, _, _)
QPow(F, a, e) == IF e = << >> THEN TwOne(F)
                 ELSE LET h == QPow(F, a, BShr(e, 1))
                          s == QMul(F, h, h)
                      IN IF BOdd(e) THEN QMul(F, s, a) ELSE s
-----------------------------------------------------------------------------
TwAdd(F, a, b) == QAdd(F, a, b)                              \* [J]
TwNeg(F, a) == QNeg(F, a)                                    \* [J]
TwSub(F, a, b) == QAdd(F, a, QNeg(F, b))                     \* [J]
TwMul(F, a, b) == QMul(F, a, b)                              \* [J]
TwPow(F, a, e) == QPow(F, a, e)                              \* [J]
\* [J] the inverse of a # 0, as the Fermat power
RECURSIVE TwSize(_)
TwSize(F) == IF TwLv(F) = 0 THEN F[1]
             ELSE LET s == TwSize(TwBase(F))
                      RECURSIVE P(_)
                      P(k) == IF k = 0 THEN << 1 >> ELSE BMul(s, P(k - 1))
                  IN P(TwTop(F)[1])
TwInv(F, a) == QPow(F, a, BSub(TwSize(F), << 2 >>))          \* [J]
-----------------------------------------------------------------------------
TwDouble(F, a) == TwAdd(F, a, a)
TwSquare(F, a) == TwMul(F, a, a)
TwIsZero(F, a) == a = TwZero(F)
\* order: by the highest coefficient first
RECURSIVE TwLess(_, _, _)
RECURSIVE TwLessFrom(_, _, _, _)
TwLessFrom(F, a, b, i) == IF i = 0 THEN FALSE
                          ELSE IF a[i] # b[i] THEN TwLess(TwBase(F), a[i], b[i])
                          ELSE TwLessFrom(F, a, b, i - 1)
TwLess(F, a, b) == IF TwLv(F) = 0 THEN BLess(a, b) ELSE TwLessFrom(F, a, b, TwTop(F)[1])
\* all coordinates over the prime field
RECURSIVE TwFlat(_, _)
RECURSIVE TwFlatFrom(_, _, _)
TwFlatFrom(F, a, i) == IF i > Len(a) THEN << >> ELSE TwFlat(TwBase(F), a[i]) \o TwFlatFrom(F, a, i + 1)
TwFlat(F, a) == IF TwLv(F) = 0 THEN << a >> ELSE TwFlatFrom(F, a, 1)
RECURSIVE TwIn(_, _)
TwIn(F, a) == IF TwLv(F) = 0 THEN BLess(a, F[1])
              ELSE Len(a) = TwTop(F)[1] /\ \A i \in 1..Len(a) : TwIn(TwBase(F), a[i])
RECURSIVE BPowI(_, _)
BPowI(b, k) == IF k = 0 THEN << 1 >> ELSE BMul(b, BPowI(b, k - 1))
=============================================================================
