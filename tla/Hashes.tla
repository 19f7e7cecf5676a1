-------------------------------- MODULE Hashes --------------------------------
(* Byte strings (sequences of 0..255) and the standard hash functions over them.*)
(* Sha256 and Blake2b are the published functions; their evaluation is Java's   *)
(* (Hashes.java, independent of the repository), pinned to published vectors by *)
(* HashesSelf.  For reasoning they are just functions of the whole byte string. *)
EXTENDS BigNat
Zeros(n) == [i \in 1..n |-> 0]
HLimb(x, i) == IF i > Len(x) THEN 0 ELSE x[i]
\* little- and big-endian bytes of a number, n of them, and back
HByte(x, k) == LET i == (8 * k) \div 12
                   o == (8 * k) % 12
               IN IF o = 0 THEN HLimb(x, i + 1) % 256
                  ELSE IF o = 8 THEN (HLimb(x, i + 1) \div 256) + 16 * (HLimb(x, i + 2) % 16)
                  ELSE HLimb(x, i + 1) \div 16
LE(x, n) == [k \in 1..n |-> HByte(x, k - 1)]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
BE(x, n) == Rev(LE(x, n))
HB(s, i) == IF i > Len(s) THEN 0 ELSE s[i]
FromLE(s) == PTrim([i \in 1..((2 * Len(s) + 2) \div 3) |->
               LET b == 3 * ((i - 1) \div 2)
               IN IF (i % 2) = 1 THEN HB(s, b + 1) + 256 * (HB(s, b + 2) % 16) ELSE (HB(s, b + 2) \div 16) + 16 * HB(s, b + 3)])
Sha256(s) == CHOOSE h \in [1..32 -> 0..255] : TRUE       \* [J]
Blake2b(s, person) == CHOOSE h \in [1..64 -> 0..255] : TRUE   \* [J] BLAKE2b-512, 16-byte personalisation
===============================================================================
