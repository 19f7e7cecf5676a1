------------------------------ MODULE Pippenger ------------------------------
(* Design of the bucket multi-scalar multiplication.  The bases are the free      *)
(* generators of Z^2, so that the result is exact when its coordinates are the    *)
(* scalars.  Windows are summed one per step in any order (they run in parallel), *)
(* then combined from the highest down.  "naf" uses recoded digits in             *)
(* [-2^(w-1), 2^(w-1)), the last one keeping the carry; "plain" skips zero, adds   *)
(* unit scalars once; "fixed" looks digits up in a table of multiples.            *)
EXTENDS Integers, Sequences
CONSTANTS Bits, MaxW
VARIABLES mode, w, ks, done, sums, res
vars == << mode, w, ks, done, sums, res >>
Max(a, b) == IF a > b THEN a ELSE b
Pow2(k) == 2^k
Count == (Bits + w - 1) \div w
Wins == 0..(Count - 1)
Zero == << 0, 0 >>
Add(a, b) == << a[1] + b[1], a[2] + b[2] >>
Neg(a) == << -a[1], -a[2] >>
Scale(c, a) == << c * a[1], c * a[2] >>
Base(i) == IF i = 1 THEN << 1, 0 >> ELSE << 0, 1 >>
Extract(k, i) == (k \div Pow2(w * i)) % Pow2(w)
\* << digit, carry >> of window i
RECURSIVE Digit(_, _)
Digit(k, i) ==
  LET c == IF i = 0 THEN 0 ELSE Digit(k, i - 1)[2]
      coeff == c + Extract(k, i)
      carry == (coeff + Pow2(w) \div 2) \div Pow2(w)
  IN << IF i = Count - 1 THEN coeff ELSE coeff - carry * Pow2(w), carry >>
NafBucketCount(i) == IF i = Count - 1 THEN Pow2(w) ELSE Pow2(w - 1)
NafBucket(i, j) ==      \* content of bucket j (1-based)
  LET part(n) == LET d == Digit(ks[n], i)[1] IN IF d = j THEN Base(n) ELSE IF d = -j THEN Neg(Base(n)) ELSE Zero
  IN Add(part(1), part(2))
PlainBucket(i, j) ==
  LET part(n) == IF ks[n] > 1 /\ Extract(ks[n], i) = j THEN Base(n) ELSE Zero IN Add(part(1), part(2))
\* sum of j * bucket(j) by a running sum from the top
RECURSIVE Run(_, _, _, _)
Run(b(_), j, run, sum) == IF j = 0 THEN sum ELSE LET r2 == Add(run, b(j)) IN Run(b, j - 1, r2, Add(sum, r2))
Units == LET part(n) == IF ks[n] = 1 THEN Base(n) ELSE Zero IN Add(part(1), part(2))
WindowSum(i) ==
  CASE mode = "naf" -> Run(LAMBDA j : NafBucket(i, j), NafBucketCount(i), Zero, Zero)
    [] mode = "plain" -> Run(LAMBDA j : PlainBucket(i, j), Pow2(w) - 1, Zero, IF i = 0 THEN Units ELSE Zero)
    [] mode = "fixed" -> Add(Scale(Extract(ks[1], i), Base(1)), Scale(Extract(ks[2], i), Base(2)))
Init == /\ mode \in {"naf", "plain", "fixed"} /\ w \in 1..MaxW
        /\ ks \in (0..(Pow2(Bits) - 1)) \X (0..(Pow2(Bits) - 1))
        /\ done = {} /\ sums = [i \in Wins |-> Zero] /\ res = << >>
Window(i) == /\ i \notin done /\ done' = done \cup {i}
             /\ sums' = [sums EXCEPT ![i] = WindowSum(i)] /\ UNCHANGED << mode, w, ks, res >>
RECURSIVE Combine(_)
Combine(i) == IF i = Count THEN Zero ELSE Add(sums[i], Scale(Pow2(w), Combine(i + 1)))
Finish == /\ done = Wins /\ res = << >> /\ res' = Combine(0) /\ UNCHANGED << mode, w, ks, done, sums >>
Next == Finish \/ \E i \in Wins : Window(i)
\* the digits of every recoding are in range and denote the scalar
DigitsFit == mode = "naf" => \A n \in 1..2, i \in Wins :
  LET d == Digit(ks[n], i)[1] IN d <= NafBucketCount(i) /\ -d <= NafBucketCount(i)
Correct == res = << >> \/ res = ks
=============================================================================
