-------------------------------- MODULE SqrtAlg --------------------------------
(* Design model: Tonelli-Shanks and Shanks for every element of small primes;   *)
(* Euler's criterion is the existence of a root; the loop terminates within      *)
(* two-adicity rounds.                                                           *)
EXTENDS Integers, FiniteSets
CONSTANT Primes
VARIABLES p, a, pc, x, b, z, v, n
vars == << p, a, pc, x, b, z, v, n >>
RECURSIVE Pw(_, _, _)
Pw(q, e, m) == IF e = 0 THEN 1 % m ELSE IF e % 2 = 1 THEN (q * Pw(q, e - 1, m)) % m
               ELSE LET h == Pw(q, e \div 2, m) IN (h * h) % m
RECURSIVE Two(_)
Two(m) == IF m % 2 = 1 THEN 0 ELSE 1 + Two(m \div 2)
S == Two(p - 1)
Tr == (p - 1) \div 2^S
Squares(m) == {(y * y) % m : y \in 0..(m - 1)}
Nqr == CHOOSE c \in 1..(p - 1) : c \notin Squares(p)
Init == /\ p \in Primes /\ a \in 0..(p - 1) /\ pc = "start" /\ x = 0 /\ b = 0 /\ z = 0 /\ v = 0 /\ n = 0
RECURSIVE Ord2(_)
Ord2(y) == IF y = 1 THEN 0 ELSE 1 + Ord2((y * y) % p)
Start == /\ pc = "start"
         /\ IF p % 4 = 3 THEN /\ x' = Pw(a, (p + 1) \div 4, p) /\ pc' = "check" /\ UNCHANGED << b, z, v >>
            ELSE IF a = 0 THEN x' = 0 /\ pc' = "check" /\ UNCHANGED << b, z, v >>
            ELSE LET w == Pw(a, (Tr - 1) \div 2, p)
                 IN /\ x' = (w * a) % p /\ b' = (x' * w) % p /\ z' = Pw(Nqr, Tr, p) /\ v' = S
                    /\ pc' = IF b' = 1 THEN "check" ELSE "loop"
         /\ UNCHANGED << p, a, n >>
Loop == /\ pc = "loop"
        /\ LET k == Ord2(b)
               w == Pw(z, 2^(v - k - 1), p)
           IN IF k = S THEN pc' = "none" /\ UNCHANGED << x, b, z, v >>
              ELSE /\ z' = (w * w) % p /\ b' = (b * z') % p /\ x' = (x * w) % p /\ v' = k
                   /\ pc' = IF b' = 1 THEN "check" ELSE "loop"
        /\ n' = n + 1 /\ UNCHANGED << p, a >>
Check == pc = "check" /\ pc' = (IF (x * x) % p = a THEN "found" ELSE "none") /\ UNCHANGED << p, a, x, b, z, v, n >>
Stop == pc \in {"found", "none"} /\ UNCHANGED vars
Next == Start \/ Loop \/ Check \/ Stop
Inv == /\ pc = "found" => a \in Squares(p)
       /\ pc = "none" => a \notin Squares(p)
       /\ n <= S
       /\ pc = "loop" => (x * x) % p = (a * b) % p /\ (n > 0 => Ord2(b) < v)
       /\ (a # 0 => (Pw(a, (p - 1) \div 2, p) = 1) = (a \in Squares(p)))
=============================================================================
