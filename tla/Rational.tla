------------------------------ MODULE Rational ------------------------------
(* Values kept as fractions, and values that may be unknown.  A register r[i]  *)
(* holds the field element the fraction denotes, or Unknown; a pair << n, d >> *)
(* denotes v when d is not zero and n = v d.                                   *)
EXTENDS Fp
Unknown == << -1 >>
Known(v) == v # Unknown
Denotes(n, d, v) == d # << >> /\ n = FMul(v, d)
Shows(e, v) == IF Known(v) THEN e.k /\ Denotes(e.n, e.d, v) ELSE ~e.k
One == BMod(<< 1 >>, p)
MinusOne == FNeg(One)
Lift2(op(_, _), a, b) == IF Known(a) /\ Known(b) THEN op(a, b) ELSE Unknown
Lift1(op(_), a) == IF Known(a) THEN op(a) ELSE Unknown
Bin(o, a, b) == CASE o = "add" -> Lift2(FAdd, a, b) [] o = "sub" -> Lift2(FSub, a, b)
                  [] o = "mul" -> Lift2(FMul, a, b) [] o = "div" -> Lift2(FDiv, a, b)
Un(o, a) == CASE o = "neg" -> Lift1(FNeg, a) [] o = "dbl" -> (IF Known(a) THEN FAdd(a, a) ELSE a)
              [] o = "sqr" -> (IF Known(a) THEN FMul(a, a) ELSE a) [] o = "inv" -> Lift1(FInv, a) [] o = "copy" -> a
\* division by a known zero, and the inverse of zero, are refused
Refused(o, b) == o \in {"div", "inv"} /\ b = << >>
\* evaluating together: a zero denominator denotes zero
Batched(n, d, c) == IF d = << >> THEN << >> ELSE FMul(c, FDiv(n, d))
=============================================================================
