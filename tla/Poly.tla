--------------------------------- MODULE Poly ---------------------------------
(* Univariate polynomials over a field F (Tower): the sequence of coefficients, *)
(* constant first, without trailing zeros; the zero polynomial is << >>.        *)
(* [J]: equivalent Java evaluation in Poly.java, compared by PolySelf.          *)
EXTENDS Tower
RECURSIVE PoTrim(_, _)
PoTrim(F, s) == IF s = << >> THEN s
               ELSE IF s[Len(s)] = TwZero(F) THEN PoTrim(F, SubSeq(s, 1, Len(s) - 1)) ELSE s
PoMaxN(a, b) == IF a > b THEN a ELSE b
PoCo(F, a, i) == IF i <= Len(a) THEN a[i] ELSE TwZero(F)
QPoAdd(F, a, b) == PoTrim(F, [i \in 1..PoMaxN(Len(a), Len(b)) |-> TwAdd(F, PoCo(F, a, i), PoCo(F, b, i))])
PoNeg(F, a) == [i \in 1..Len(a) |-> TwNeg(F, a[i])]
QPoScale(F, a, c) == PoTrim(F, [i \in 1..Len(a) |-> TwMul(F, a[i], c)])
RECURSIVE QPoMul(_, _, _)
QPoMul(F, a, b) == IF a = << >> \/ b = << >> THEN << >>
                  ELSE QPoAdd(F, QPoScale(F, b, a[1]),
                                PoTrim(F, << TwZero(F) >> \o QPoMul(F, PoTrim(F, SubSeq(a, 2, Len(a))), b)))
RECURSIVE QPoEval(_, _, _)
QPoEval(F, a, x) == IF a = << >> THEN TwZero(F)
                   ELSE TwAdd(F, a[1], TwMul(F, x, QPoEval(F, SubSeq(a, 2, Len(a)), x)))
\* << quotient, remainder >> of a by b # 0
RECURSIVE QPoDivMod(_, _, _)
QPoDivMod(F, a, b) ==
  IF Len(a) < Len(b) THEN << << >>, a >>
  ELSE LET c == TwMul(F, a[Len(a)], TwInv(F, b[Len(b)]))
           k == Len(a) - Len(b)
           m == [i \in 1..k |-> TwZero(F)] \o << c >>
           rest == QPoDivMod(F, QPoAdd(F, a, PoNeg(F, QPoMul(F, m, b))), b)
       IN << QPoAdd(F, m, rest[1]), rest[2] >>
RECURSIVE QPoRoots(_, _)
QPoRoots(F, xs) == IF xs = << >> THEN << TwOne(F) >>
                  ELSE QPoMul(F, << TwNeg(F, xs[1]), TwOne(F) >>, QPoRoots(F, SubSeq(xs, 2, Len(xs))))
-----------------------------------------------------------------------------
PoAdd(F, a, b) == QPoAdd(F, a, b)                             \* [J]
PoSub(F, a, b) == QPoAdd(F, a, PoNeg(F, b))                    \* [J]
PoScale(F, a, c) == QPoScale(F, a, c)                         \* [J]
PoMul(F, a, b) == QPoMul(F, a, b)                             \* [J]
PoEval(F, a, x) == QPoEval(F, a, x)                           \* [J]
PoDivMod(F, a, b) == QPoDivMod(F, a, b)                       \* [J]
PoRoots(F, xs) == QPoRoots(F, xs)                             \* [J]
\* [J] the values of a at off * g^0 .. off * g^(n-1)
PoEvalsAt(F, a, off, g, n) == [i \in 1..n |-> PoEval(F, a, TwMul(F, off, TwPow(F, g, BFromInt(i - 1))))]
-----------------------------------------------------------------------------
\* even part + r * odd part
PoFold(F, a, r) ==
  LET n == (Len(a) + 1) \div 2
  IN PoTrim(F, [i \in 1..n |-> TwAdd(F, PoCo(F, a, 2 * i - 1), TwMul(F, r, PoCo(F, a, 2 * i)))])
\* the non-zero terms << degree, coefficient >> in increasing degree
PoTermsAll(a) == [i \in 1..Len(a) |-> << i - 1, a[i] >>]
PoTerms(F, a) == LET z == TwZero(F) nz(x) == x[2] # z IN SelectSeq(PoTermsAll(a), nz)
PoDegree(a) == IF a = << >> THEN 0 ELSE Len(a) - 1
=============================================================================
