------------------------------- MODULE BinTower -------------------------------
(* The tower GF(2) < GF(4) < GF(16) < ... : level k, of 2^k bits, adjoins to   *)
(* level k - 1 a root X of X^2 = a X + 1, a the previous root (1 at level 1).   *)
(* An element is the number whose low half is its constant coefficient.        *)
EXTENDS BigNat
BtHalf(k) == 2^(k - 1)
\* the root adjoined at level k, as an element of level k: bit 2^(k-1)
BtRoot(k) == BPow2(BtHalf(k))
BtAlpha(k) == IF k = 1 THEN << 1 >> ELSE BtRoot(k - 1)
BtLo(k, a) == BMod(a, BPow2(BtHalf(k)))
BtHi(k, a) == BShr(a, BtHalf(k))
RECURSIVE QBtMul(_, _, _)
QBtMul(k, a, b) ==
  IF k = 0 THEN BMul(a, b)
  ELSE LET l == QBtMul(k - 1, BtLo(k, a), BtLo(k, b))
           h == QBtMul(k - 1, BtHi(k, a), BtHi(k, b))
           m == BXor(QBtMul(k - 1, BtLo(k, a), BtHi(k, b)), QBtMul(k - 1, BtHi(k, a), BtLo(k, b)))
           x == BXor(m, QBtMul(k - 1, h, BtAlpha(k)))
       IN BAdd(BXor(l, h), BShl(x, BtHalf(k)))
BtMul(k, a, b) == QBtMul(k, a, b)                 \* [J]
RECURSIVE BtPow(_, _, _)
BtPow(k, a, e) == IF e = << >> THEN << 1 >>
                  ELSE LET h == BtPow(k, a, BShr(e, 1)) IN
                       LET s == BtMul(k, h, h) IN IF BOdd(e) THEN BtMul(k, s, a) ELSE s
=============================================================================
