-------------------------------- MODULE Buffer --------------------------------
(* Byte buffers with a cursor and a byte order, and the encoding of values.     *)
(* A buffer is [k: kind, b: bytes, o: cursor, e: byte order].  A cursor or an   *)
(* offset -n stands for 2^64-n.  A value is a tree:                             *)
(*   <<"u", bytes>>      a builtin, least significant byte first                *)
(*   <<"a", trees>>      values one after the other                             *)
(*   <<"v", trees>>      the same after their number                            *)
(*   <<"s", w, bytes>>   characters of w bytes after their number, never swapped*)
(* and a type has the same shape with sizes for contents (see End).             *)
EXTENDS Integers, Sequences, TLC

BufMin(x, y) == IF x < y THEN x ELSE y
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Zeros(n) == [i \in 1..n |-> 0]
U64(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0 >>
Ord(b, e) == IF e = "b" /\ Len(b) \in {2, 4, 8} THEN Rev(b) ELSE b

RECURSIVE Enc(_, _), EncAll(_, _, _)
EncAll(xs, e, i) == IF i > Len(xs) THEN << >> ELSE Enc(xs[i], e) \o EncAll(xs, e, i + 1)
Enc(x, e) == CASE x[1] = "u" -> Ord(x[2], e)
               [] x[1] = "a" -> EncAll(x[2], e, 1)
               [] x[1] = "v" -> Ord(U64(Len(x[2])), e) \o EncAll(x[2], e, 1)
               [] x[1] = "s" -> Ord(U64(Len(x[3]) \div x[2]), e) \o x[3]

(* The number in 8 bytes at p, or -1 if it is larger than any buffer here.      *)
Num(b, p, e) == LET x == Ord(SubSeq(b, p + 1, p + 8), e)
                IN IF x[4] = 0 /\ x[5] = 0 /\ x[6] = 0 /\ x[7] = 0 /\ x[8] = 0 THEN x[1] + 256 * x[2] + 65536 * x[3] ELSE -1
Neg(b, p, e) == Ord(SubSeq(b, p + 1, p + 8), e)[8] >= 128
RECURSIVE Less(_, _, _)
Less(x, y, i) == IF i = 0 THEN FALSE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE Less(x, y, i - 1)
RECURSIVE CatWords(_, _, _, _, _, _)
CatWords(b, p, n, w, e, i) == IF i = n THEN << >> ELSE Ord(SubSeq(b, p + i * w + 1, p + i * w + w), e) \o CatWords(b, p, n, w, e, i + 1)
(* Where the value of type ty at p ends, or -1 if there is none.                *)
RECURSIVE End(_, _, _, _), EndAll(_, _, _, _, _), EndN(_, _, _, _, _)
EndAll(ts, b, p, e, i) == IF p < 0 \/ i > Len(ts) THEN p ELSE EndAll(ts, b, End(ts[i], b, p, e), e, i + 1)
EndN(ty, b, p, e, n) == IF p < 0 \/ n = 0 THEN p ELSE EndN(ty, b, End(ty, b, p, e), e, n - 1)
Fit(b, p, n) == IF p + n <= Len(b) THEN p + n ELSE -1
End(ty, b, p, e) ==
  CASE ty[1] = "u" -> Fit(b, p, ty[2])
    [] ty[1] = "a" -> EndAll(ty[2], b, p, e, 1)
    [] ty[1] = "n" -> EndN(ty[3], b, p, e, ty[2])
    [] ty[1] = "f" -> (* n words of w bytes below a modulus *)
         IF Fit(b, p, ty[2] * ty[3]) < 0 THEN -1
         ELSE IF Less(CatWords(b, p, ty[2], ty[3], e, 0), ty[4], ty[2] * ty[3]) THEN p + ty[2] * ty[3] ELSE -1
    [] OTHER ->
         IF Fit(b, p, 8) < 0 THEN -1 ELSE
         LET n == Num(b, p, e) IN
         IF ty[1] = "m" THEN
           IF Fit(b, p, 16) < 0 THEN -1 ELSE
           LET m == Num(b, p + 8, e) IN
           IF Neg(b, p, e) \/ Neg(b, p + 8, e) \/ (ty[2] >= 0 /\ ty[2] # n) \/ (ty[3] >= 0 /\ ty[3] # m) THEN -1
           ELSE IF n = 0 \/ m = 0 THEN p + 16
           ELSE IF n < 0 \/ m < 0 \/ n > Len(b) \/ m > Len(b) THEN -1
           ELSE IF n * m > Len(b) THEN -1 ELSE EndN(ty[4], b, p + 16, e, n * m)
         ELSE IF n < 0 \/ n > Len(b) THEN -1
         ELSE CASE ty[1] = "v" -> EndN(ty[2], b, p + 8, e, n)
                [] ty[1] = "s" -> Fit(b, p + 8, n * ty[2])
                [] ty[1] = "d" -> IF ty[2] >= 0 /\ ty[2] # n THEN -1 ELSE EndN(ty[3], b, p + 8, e, n)

(* Writing w at offset o. *)
Over(b, o, w) == IF Len(w) = 0 THEN b ELSE SubSeq(b, 1, o) \o w \o SubSeq(b, o + Len(w) + 1, Len(b))
Grown(b, n) == IF n > Len(b) THEN b \o Zeros(n - Len(b)) ELSE b
CanWrite(B, o, n) == IF o < 0 THEN FALSE ELSE (B.k # "fixed" \/ o + n <= Len(B.b))
AfterWrite(B, o, w) == [B EXCEPT !.b = Over(Grown(B.b, o + Len(w)), o, w), !.o = o + Len(w)]
CanRead(B, o, n) == o >= 0 /\ o + n <= Len(B.b)
Empty(kind) == [k |-> kind, b |-> << >>, o |-> 0, e |-> "n"]
=============================================================================
