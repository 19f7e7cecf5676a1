----------------------------- MODULE SumcheckModel -----------------------------
(* Every play of the protocol between the verifier and a prover that may lie, for  *)
(* two variables over the field of five elements.                                  *)
EXTENDS Sumcheck, Integers, FiniteSets
FF == << << 5 >>, << >> >>
El == {IF i = 0 THEN << >> ELSE << i >> : i \in 0..4}
B(s) == [i \in DOMAIN s |-> IF s[i] = 0 THEN << >> ELSE << s[i] >>]
Tables == {<< B(<< 1, 2, 3, 4 >>), B(<< 0, 3, 1, 1 >>) >>, << B(<< 0, 0, 0, 1 >>), B(<< 4, 4, 0, 2 >>) >>}
Terms == << << << 2 >>, << 1, 2 >> >>, << << 3 >>, << 1 >> >> >>
Deg == 2
VARIABLES tabs, left, claim, lied
vars == << tabs, left, claim, lied >>
Truth == ScTotal(FF, Terms, tabs, left)
Init == /\ tabs \in Tables /\ left = 2 /\ claim \in El /\ lied = (claim # ScTotal(FF, Terms, tabs, 2))
True == ScMsg(FF, Terms, tabs, left, Deg)
\* the prover sends any message that fits the claim; the verifier draws any challenge
Play(y, x) ==
  /\ left > 0 /\ ScEnds(FF, y) = claim
  /\ tabs' = ScFixAll(FF, tabs, x) /\ left' = left - 1 /\ claim' = ScInterp(FF, y, x)
  /\ lied' = (lied \/ y # True)
Messages == [1..(Deg + 1) -> El]
Next == \/ \E y \in Messages : \E x \in El : Play(y, x)
        \/ (left = 0 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
\* a play without a lie keeps the claim true
Complete == ~lied => claim = Truth
\* the true message fits a true claim, and the sum over the cube is what it claims
Fits == left > 0 => (ScEnds(FF, True) = Truth)
\* against a false claim any message that passes survives at most Deg challenges
Sound == (left > 0 /\ claim # Truth) =>
           \A y \in Messages : ScEnds(FF, y) = claim =>
              Cardinality({x \in El : ScInterp(FF, y, x) = ScInterp(FF, True, x)}) <= Deg
\* and a challenge turns the true message into the true claim of the next round
Carries == left > 0 => \A x \in El : ScInterp(FF, True, x) = ScTotal(FF, Terms, ScFixAll(FF, tabs, x), left - 1)
=============================================================================
