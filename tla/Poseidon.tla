------------------------------- MODULE Poseidon -------------------------------
(* The Poseidon and Poseidon2 permutations as published: rounds of constant     *)
(* addition, power map and linear layer over a prime field F = << p, << >> >>;  *)
(* states are sequences of field elements.  And the Grain LFSR from which their *)
(* parameters come.  The operators marked [J] have a Java evaluation      *)
(* that PoseidonSelf compares with the definitions.                             *)
EXTENDS Tower
LOCAL INSTANCE TLC

PsPow(F, x, e) == TwPow(F, x, BFromInt(e))
RECURSIVE PsDot(_, _, _, _)
PsDot(F, a, b, i) == IF i > Len(a) THEN TwZero(F) ELSE TwAdd(F, TwMul(F, a[i], b[i]), PsDot(F, a, b, i + 1))
PsMul(F, m, v) == [i \in 1..Len(m) |-> PsDot(F, m[i], v, 1)]
PsAdd(F, a, b) == [i \in 1..Len(a) |-> TwAdd(F, a[i], b[i])]
RECURSIVE PsSum(_, _, _)
PsSum(F, v, i) == IF i > Len(v) THEN TwZero(F) ELSE TwAdd(F, v[i], PsSum(F, v, i + 1))

\* c: alpha, rf, rp and the round constants and matrix of the textbook permutation
PsFull(c, i) == i <= c.rf \div 2 \/ i > c.rf \div 2 + c.rp
RECURSIVE PsRounds(_, _, _, _)
PsRounds(F, c, s, i) ==
  IF i > c.rf + c.rp THEN s
  ELSE LET a == PsAdd(F, s, c.ark[i])
           x == [j \in 1..Len(s) |-> IF j = 1 \/ PsFull(c, i) THEN PsPow(F, a[j], c.alpha) ELSE a[j]]
       IN PsRounds(F, c, TLCEval(PsMul(F, c.mds, TLCEval(x))), i + 1)
QPoseidonPerm(F, c, s) == PsRounds(F, c, s, 1)
PoseidonPerm(F, c, s) == QPoseidonPerm(F, c, s)  \* [J]

\* Poseidon2
M4(horizen) == IF horizen THEN << <<5, 7, 1, 3>>, <<4, 6, 1, 1>>, <<1, 3, 5, 7>>, <<1, 1, 4, 6>> >>
               ELSE << <<2, 3, 1, 1>>, <<1, 2, 3, 1>>, <<1, 1, 2, 3>>, <<3, 1, 1, 2>> >>
\* the external matrix of width w, small integers
P2Ext(horizen, w) ==
  [i \in 1..w |-> [j \in 1..w |->
     IF w < 4 THEN IF i = j THEN 2 ELSE 1
     ELSE LET b == M4(horizen)[((i - 1) % 4) + 1][((j - 1) % 4) + 1]
          IN IF w > 4 /\ (i - 1) \div 4 = (j - 1) \div 4 THEN 2 * b ELSE b]]
P2ExtF(F, horizen, w) == LET m == P2Ext(horizen, w) IN [i \in 1..w |-> [j \in 1..w |-> BMod(BFromInt(m[i][j]), F[1])]]
\* scale * (all-ones + diag(d)) applied to s
P2Int(F, d, scale, s) == LET S == TLCEval(PsSum(F, s, 1)) IN [i \in 1..Len(s) |-> TwMul(F, scale, TwAdd(F, S, TwMul(F, d[i], s[i])))]
RECURSIVE P2Rounds(_, _, _, _, _)
P2Rounds(F, c, me, s, i) ==
  IF i > c.rf + c.rp THEN s
  ELSE IF PsFull(c, i)
       THEN LET a == PsAdd(F, s, c.ark[i])
                x == [j \in 1..Len(s) |-> PsPow(F, a[j], c.alpha)]
            IN P2Rounds(F, c, me, TLCEval(PsMul(F, me, TLCEval(x))), i + 1)
       ELSE LET x == [s EXCEPT ![1] = PsPow(F, TwAdd(F, s[1], c.ark[i][1]), c.alpha)]
            IN P2Rounds(F, c, me, TLCEval(P2Int(F, c.diag, c.scale, x)), i + 1)
QPoseidon2Perm(F, c, s) == LET me == TLCEval(P2ExtF(F, c.horizen, Len(s))) IN P2Rounds(F, c, me, TLCEval(PsMul(F, me, s)), 1)
Poseidon2Perm(F, c, s) == QPoseidon2Perm(F, c, s)  \* [J]
\* all-ones + diag(d) is invertible: det = prod d * (1 + sum 1/d)
P2Invertible(F, d) ==
  LET z == {i \in 1..Len(d) : d[i] = TwZero(F)}
  IN IF z = {} THEN PsSum(F, [i \in 1..Len(d) |-> TwInv(F, d[i])], 1) # TwNeg(F, TwOne(F))
     ELSE \E i \in 1..Len(d) : z = {i}

\* the Grain LFSR in self-shrinking mode; k = << prime bits, width, full rounds, partial rounds >>
RECURSIVE GrBits(_, _)
GrBits(v, n) == IF n = 0 THEN << >> ELSE Append(GrBits(v \div 2, n - 1), v % 2)
GrainInit(k) == << 0, 1, 0, 0, 0, 0 >> \o GrBits(k[1], 12) \o GrBits(k[2], 12) \o GrBits(k[3], 10) \o GrBits(k[4], 10)
                \o [i \in 1..30 |-> 1]
GrNew(s) == (s[63] + s[52] + s[39] + s[24] + s[14] + s[1]) % 2
GrStep(s) == Append(Tail(s), GrNew(s))
RECURSIVE GrRun(_, _)
GrRun(s, n) == IF n = 0 THEN s ELSE GrRun(GrStep(s), n - 1)
RECURSIVE GrTake(_, _, _)
GrTake(s, n, acc) == IF n = 0 THEN acc
                     ELSE LET s1 == GrStep(s)
                              s2 == GrStep(s1)
                          IN IF s1[80] = 1 THEN GrTake(s2, n - 1, Append(acc, s2[80])) ELSE GrTake(s2, n, acc)
\* its first n output bits [J]
QGrainBits(k, n) == GrTake(GrRun(GrainInit(k), 160), n, << >>)
GrainBits(k, n) == QGrainBits(k, n)

\* the number whose n bits, most significant first, start at i
RECURSIVE GrNat(_, _, _)
GrNat(q, i, n) == IF n = 0 THEN << >>
                  ELSE LET m == IF n > 12 THEN 12 ELSE n
                           lo == [x \in 1..m |-> q[i + n - m + x - 1]]
                           V[x \in 0..12] == IF x = 0 THEN 0 ELSE 2 * V[x - 1] + lo[x]
                           hi == GrNat(q, i, n - m)
                       IN IF hi = << >> /\ V[m] = 0 THEN << >> ELSE << V[m] >> \o hi
\* m elements by rejection: << elements, next position >> [J]
RECURSIVE QGrReject(_, _, _, _, _, _)
QGrReject(q, p, n, i, m, acc) == IF m = 0 THEN << acc, i >>
                                 ELSE LET x == GrNat(q, i, n)
                                      IN IF BLess(x, p) THEN QGrReject(q, p, n, i + n, m - 1, Append(acc, x)) ELSE QGrReject(q, p, n, i + n, m, acc)
GrReject(q, p, n, i, m) == QGrReject(q, p, n, i, m, << >>)
\* m elements reduced modulo p [J]
QGrModP(q, p, n, i, m) == [x \in 1..m |-> BMod(GrNat(q, i + (x - 1) * n, n), p)]
GrModP(q, p, n, i, m) == QGrModP(q, p, n, i, m)
===============================================================================
