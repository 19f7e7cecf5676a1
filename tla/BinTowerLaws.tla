----------------------------- MODULE BinTowerLaws -----------------------------
(* The declared tower is a field at each level and contains the previous ones  *)
(* (exhaustively up to GF(16), by rows above); BinTower.java agrees with it.    *)
EXTENDS BinTower
VARIABLES k, a, b, c
N(i) == BFromInt(i)
El == {N(i) : i \in 0..15}
Big == {<< >>, <<1>>, <<2>>, << 16 >>, << 200 >>, << 255 >>, << 77 >>}
Init == \/ k = 2 /\ a \in El /\ b \in El /\ c \in El
        \/ k = 3 /\ a \in {N(i) : i \in 0..255} /\ b \in Big /\ c \in {<< 3 >>, << 129 >>}
        \/ k = 4 /\ a \in Big /\ b \in {<< 0, 1 >>, << 4095, 15 >>, << 1234, 7 >>} /\ c \in Big
Next == UNCHANGED << k, a, b, c >>
Laws == /\ BtMul(k, a, b) = BtMul(k, b, a)
        /\ BtMul(k, a, BtMul(k, b, c)) = BtMul(k, BtMul(k, a, b), c)
        /\ BtMul(k, a, BXor(b, c)) = BXor(BtMul(k, a, b), BtMul(k, a, c))
        /\ BtMul(k, a, << 1 >>) = a
        /\ BLess(BtMul(k, a, b), BPow2(2^k))
        /\ (k > 2 /\ BLess(a, << 16 >>) /\ BLess(c, << 16 >>) => BtMul(k, a, c) = BtMul(2, a, c))
        /\ (k < 4 => BtPow(k, a, BPow2(2^k)) = a)
        /\ (a # << >> => BtMul(k, a, BtPow(k, a, BSub(BPow2(2^k), << 2 >>))) = << 1 >>)
Java == BtMul(k, a, b) = QBtMul(k, a, b)
=============================================================================
