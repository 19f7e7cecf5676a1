----------------------------- MODULE BinTowerTrace -----------------------------
(* Histories of a register machine over a binary tower field of 2^k bits.       *)
EXTENDS BinTower, TraceBase
VARIABLES k, r
bvars == << k, r >>
Init == TInit /\ k = 0 /\ r = [i \in 1..5 |-> << >>]
A == r[E.a]
B == r[E.b]
Mul(x, y) == BtMul(k, x, y)
In(x) == BLess(x, BPow2(2^k))
Res(v) == E.v = v /\ r' = [r EXCEPT ![E.d] = v] /\ UNCHANGED k
Pure == UNCHANGED bvars
TField == Is("Field") /\ k' = E.k /\ r' = [i \in 1..5 |-> << >>] /\ E.zero = << >> /\ E.one = << 1 >> /\ E.minusone = << 1 >>
TSet == Is("Set") /\ In(E.v) /\ Res(E.v) /\ E.rt
TAdd == Is("Add") /\ Res(BXor(A, B))
TMul == Is("Mul") /\ Res(Mul(A, B))
TSquare == Is("Square") /\ Res(Mul(A, A))
TDouble == Is("Double") /\ Res(<< >>)
TSame == Is("Neg") /\ Res(A)
TAlpha == Is("Alpha") /\ Res(Mul(A, IF k = 0 THEN << 1 >> ELSE BtRoot(k)))
TInv == Is("Inv") /\ IF A = << >> THEN E.v = "none" /\ Pure ELSE In(E.v) /\ Mul(A, E.v) = << 1 >> /\ Res(E.v)
TDiv == Is("Div") /\ IF B = << >> THEN E.v = "none" /\ Pure ELSE In(E.v) /\ Mul(B, E.v) = A /\ Res(E.v)
TPow == Is("Pow") /\ Res(BtPow(k, A, E.e))
TCompose == Is("Compose") /\ Pure /\ E.lo = BtLo(k, A) /\ E.hi = BtHi(k, A) /\ E.v = A
\* the product of two elements of a subfield, computed in both
TEmbed == Is("Embed") /\ Pure /\ E.small = E.large /\ E.large = Mul(E.x, E.y)
TCmp == Is("Cmp") /\ Pure /\ E.eq = (A = B) /\ E.ne = (A # B) /\ E.lt = BLess(A, B) /\ E.gt = BLess(B, A)
        /\ E.le = BLe(A, B) /\ E.ge = BLe(B, A) /\ E.z = (A = << >>) /\ E.o = (A = << 1 >>) /\ (E.streq = (A = B))
TBatch == Is("BatchInv") /\ Pure /\ \A i \in DOMAIN E.x : IF E.x[i] = << >> THEN E.out[i] = << >>
                                                          ELSE Mul(E.x[i], E.out[i]) = E.c
RECURSIVE Sum(_, _, _)
Sum(x, y, i) == IF i = 0 THEN << >> ELSE BXor(Sum(x, y, i - 1), Mul(x[i], y[i]))
TDot == Is("Dot") /\ Pure /\ E.v = Sum(E.x, E.y, Len(E.x))
\* a full row of the multiplication table, and the tables of squares and inverses
TRow == Is("Row") /\ Pure /\ Len(E.v) = 2^(2^k)
        /\ \A j \in DOMAIN E.v : BFromInt(E.v[j]) = Mul(BFromInt(E.x), BFromInt(j - 1))
        /\ BFromInt(E.sq) = Mul(BFromInt(E.x), BFromInt(E.x))
        /\ (E.x # 0 => Mul(BFromInt(E.x), BFromInt(E.inv)) = << 1 >>)
        /\ BFromInt(E.al) = Mul(BFromInt(E.x), IF k = 0 THEN << 1 >> ELSE BtRoot(k))
TText == Is("Text") /\ Pure /\ E.ok = E.want
End == TDone /\ UNCHANGED << t, l, k, r >>
Next == \/ TField \/ TSet \/ TAdd \/ TMul \/ TSquare \/ TDouble \/ TSame \/ TAlpha \/ TInv \/ TDiv \/ TPow \/ TCompose \/ TEmbed \/ TCmp
        \/ TBatch \/ TDot \/ TRow \/ TText \/ End
=============================================================================
