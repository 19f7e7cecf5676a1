------------------------------- MODULE Sumcheck -------------------------------
(* The sumcheck protocol for a sum of products of multilinear polynomials in n   *)
(* variables over a field F.  A table lists a polynomial's values on the         *)
(* hypercube (variable 0 the lowest bit).  terms: << << coefficient, << table    *)
(* numbers >> >> >>.  A round message lists the values at 0, 1, .., d of the     *)
(* polynomial in the first variable that is left, summed over the others.        *)
EXTENDS Tower, SequencesExt, FiniteSetsExt
LOCAL INSTANCE TLC
ScInt(F, i) == BMod(BFromInt(i), F[1])
ScSum(F, s) == FoldLeft(LAMBDA a, b : TwAdd(F, a, b), TwZero(F), s)
ScProd(F, s) == FoldLeft(LAMBDA a, b : TwMul(F, a, b), TwOne(F), s)
\* at X on the line from a (X = 0) to b (X = 1)
ScLine(F, a, b, x) == TwAdd(F, a, TwMul(F, x, TwSub(F, b, a)))
ScFix(F, tab, x) == TLCEval([j \in 1..(Len(tab) \div 2) |-> ScLine(F, tab[2 * j - 1], tab[2 * j], x)])
ScFixAll(F, tabs, x) == TLCEval([i \in DOMAIN tabs |-> ScFix(F, tabs[i], x)])
ScAtPoint(F, tab, x) == FoldLeft(LAMBDA a, b : ScFix(F, a, b), tab, x)[1]
ScTerms(F, terms, vals) == ScSum(F, [i \in DOMAIN terms |-> TwMul(F, terms[i][1], ScProd(F, [j \in DOMAIN terms[i][2] |-> vals[terms[i][2][j]]]))])
ScEval(F, terms, tabs, x) == ScTerms(F, terms, TLCEval([i \in DOMAIN tabs |-> ScAtPoint(F, tabs[i], x)]))
ScTotal(F, terms, tabs, n) == ScSum(F, [j \in 1..(2 ^ n) |-> ScTerms(F, terms, [i \in DOMAIN tabs |-> tabs[i][j]])])
ScDeg(terms) == FoldLeft(LAMBDA a, x : IF Len(x[2]) > a THEN Len(x[2]) ELSE a, 0, terms)
\* the honest message with n variables left
ScMsg(F, terms, tabs, n, d) ==
  TLCEval([k \in 1..(d + 1) |->
     LET fx == ScFixAll(F, tabs, ScInt(F, k - 1)) IN ScTotal(F, terms, fx, n - 1)])
\* the value at x of the polynomial of degree below Len(y) with values y at 0, 1, ..
ScInterp(F, y, x) ==
  IF BLess(x, BFromInt(Len(y))) THEN y[BToInt(x) + 1]
  ELSE ScSum(F, [i \in DOMAIN y |->
         LET O == SelectSeq([k \in DOMAIN y |-> k], LAMBDA k : k # i)
             num == ScProd(F, [k \in DOMAIN O |-> TwSub(F, x, ScInt(F, O[k] - 1))])
             den == ScProd(F, [k \in DOMAIN O |-> TwSub(F, ScInt(F, i - 1), ScInt(F, O[k] - 1))])
         IN TwMul(F, y[i], TwMul(F, num, TwInv(F, den)))])
\* a message of a constant has one value
ScEnds(F, y) == TwAdd(F, y[1], IF Len(y) > 1 THEN y[2] ELSE y[1])
\* the verifier: << accepted, the value claimed at the challenges >>
ScVerify(F, claim, ys, xs) ==
  FoldLeft(LAMBDA a, i : IF a[1] /\ ScEnds(F, ys[i]) = a[2] THEN << TRUE, ScInterp(F, ys[i], xs[i]) >> ELSE << FALSE, << >> >>,
           << TRUE, claim >>, [i \in DOMAIN ys |-> i])
=============================================================================
