------------------------------- MODULE Circuit -------------------------------
(* Circuit expressions as syntax trees and what they mean.  A table T gives    *)
(* the columns (f fixed, a advice, i instance: sequences of sequences of       *)
(* values), the challenges h and, where selectors may occur, s: one sequence   *)
(* of booleans per selector.                                                   *)
EXTENDS Fp, FiniteSets
LOCAL INSTANCE TLC
Zero == << >>
One == BMod(<< 1 >>, p)
\* row i moved by r steps of k rows in a table of n rows (rows count from 0)
RowAt(i, r0, k, n) == (i + r0 * k) % n
RECURSIVE Val(_, _, _, _, _)
Val(e, T, i, k, n) ==
  CASE e.t = "k" -> e.v
    [] e.t \in {"f", "a", "i"} -> (IF e.t = "f" THEN T.f ELSE IF e.t = "a" THEN T.a ELSE T.i)[e.c][RowAt(i, e.r, k, n) + 1]
    [] e.t = "h" -> T.h[e.c]
    [] e.t = "s" -> (IF T.s[e.c][i + 1] THEN One ELSE Zero)
    [] e.t = "-" -> FNeg(Val(e.x, T, i, k, n))
    [] e.t = "+" -> FAdd(Val(e.x, T, i, k, n), Val(e.y, T, i, k, n))
    [] e.t = "*" -> FMul(Val(e.x, T, i, k, n), Val(e.y, T, i, k, n))
    [] e.t = "." -> FMul(Val(e.x, T, i, k, n), e.v)
\* the value with selectors standing for expressions
RECURSIVE ValSub(_, _, _, _, _, _)
ValSub(e, reps, T, i, k, n) ==
  CASE e.t = "s" -> Val(reps[e.c], T, i, k, n)
    [] e.t = "-" -> FNeg(ValSub(e.x, reps, T, i, k, n))
    [] e.t = "+" -> FAdd(ValSub(e.x, reps, T, i, k, n), ValSub(e.y, reps, T, i, k, n))
    [] e.t = "*" -> FMul(ValSub(e.x, reps, T, i, k, n), ValSub(e.y, reps, T, i, k, n))
    [] e.t = "." -> FMul(ValSub(e.x, reps, T, i, k, n), e.v)
    [] OTHER -> Val(e, T, i, k, n)
RECURSIVE HasSelector(_)
HasSelector(e) == CASE e.t = "s" -> TRUE [] e.t \in {"-", "."} -> HasSelector(e.x) [] e.t \in {"+", "*"} -> HasSelector(e.x) \/ HasSelector(e.y) [] OTHER -> FALSE
RECURSIVE Deg(_)
Deg(e) == CASE e.t \in {"k", "h"} -> 0 [] e.t \in {"f", "a", "i", "s"} -> 1
            [] e.t \in {"-", "."} -> Deg(e.x)
            [] e.t = "+" -> LET a == Deg(e.x) b == Deg(e.y) IN IF a > b THEN a ELSE b
            [] e.t = "*" -> Deg(e.x) + Deg(e.y)
\* how often simple selectors occur, and which
RECURSIVE Simples(_)
Simples(e) == CASE e.t = "s" -> (IF e.m THEN << e.c >> ELSE << >>)
                [] e.t \in {"-", "."} -> Simples(e.x)
                [] e.t \in {"+", "*"} -> Simples(e.x) \o Simples(e.y)
                [] OTHER -> << >>
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Max2(a, b) == IF a > b THEN a ELSE b
\* the largest degree in a sequence of expressions, at least lo
DegOf(es, lo) == MaxOf({lo} \cup { Deg(es[i]) : i \in 1..Len(es) })
\* several expressions folded by powers of a challenge, later ones lowest
RECURSIVE Fold(_, _, _)
Fold(vs, x, acc) == IF vs = << >> THEN acc ELSE Fold(Tail(vs), x, FAdd(FMul(acc, x), Head(vs)))
=============================================================================
