------------------------------ MODULE Montgomery ------------------------------
(* Word-by-word Montgomery multiplication (CIOS) as used by the fallback prime  *)
(* field, with N words of base W, for every odd modulus p of N words and every  *)
(* pair of residues.  Each step absorbs one word of b.  Checked: the running    *)
(* value stays below 2p (so one conditional subtraction suffices), without the  *)
(* carry word exactly when the modulus leaves a spare bit, and the final value  *)
(* is a*b*R^-1 mod p.                                                          *)
EXTENDS Integers, Sequences
CONSTANTS W, N
VARIABLES p, a, b, i, acc
vars == << p, a, b, i, acc >>
R == W ^ N
\* -p^-1 mod W
NegInv(q) == CHOOSE x \in 0..(W - 1) : (x * q + 1) % W = 0
WordOf(x, k) == (x \div W ^ k) % W
Init == /\ p \in {q \in (W ^ (N - 1))..(R - 1) : q % 2 = 1 /\ q > 2}
        /\ a \in 0..(p - 1) /\ b \in 0..(p - 1) /\ i = 0 /\ acc = 0
Round == /\ i < N
         /\ LET s == acc + a * WordOf(b, i)
                k == (s * NegInv(p)) % W
            IN acc' = (s + k * p) \div W
         /\ i' = i + 1 /\ UNCHANGED << p, a, b >>
Done == i = N /\ UNCHANGED vars
Next == Round \/ Done
Spec == Init /\ [][Next]_vars
Clamp(x) == IF x >= p THEN x - p ELSE x
Below2p == acc < 2 * p
SpareBit == p < R \div 2
NoCarryNeeded == SpareBit => acc < R
Correct == i = N => /\ Clamp(acc) < p
                    /\ (Clamp(acc) * R) % p = (a * b) % p
=============================================================================
