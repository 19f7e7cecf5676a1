------------------------------- MODULE Numerics -------------------------------
(* Exact integers of any size (sign and magnitude) and the meaning of checked,  *)
(* clamped and saturating operations on machine integer types over them         *)
(* (tachyon::base numerics).  A type is [bits, signed].                         *)
EXTENDS BigNat

Z(n, m) == [n |-> n /\ m # << >>, m |-> m]
ZInt(i) == IF i < 0 THEN Z(TRUE, BFromInt(-i)) ELSE Z(FALSE, BFromInt(i))
ZNeg(a) == Z(~a.n, a.m)
ZAbs(a) == Z(FALSE, a.m)
ZIsZero(a) == a.m = << >>
ZAdd(a, b) == IF a.n = b.n THEN Z(a.n, BAdd(a.m, b.m))
              ELSE IF BLess(a.m, b.m) THEN Z(b.n, BSub(b.m, a.m)) ELSE Z(a.n, BSub(a.m, b.m))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == Z(a.n # b.n, BMul(a.m, b.m))
ZDiv(a, b) == Z(a.n # b.n, BDiv(a.m, b.m))          \* truncating, b # 0
ZMod(a, b) == Z(a.n, BMod(a.m, b.m))                \* sign of the dividend
ZLess(a, b) == IF a.n # b.n THEN a.n ELSE IF a.n THEN BLess(b.m, a.m) ELSE BLess(a.m, b.m)
ZLe(a, b) == ~ZLess(b, a)
ZPow2(k) == Z(FALSE, BShl(BFromInt(1), k))
ZShl(a, k) == Z(a.n, BShl(a.m, k))
ZShrFloor(a, k) == IF a.n THEN Z(TRUE, BShr(BSub(BAdd(a.m, BShl(BFromInt(1), k)), BFromInt(1)), k)) ELSE Z(FALSE, BShr(a.m, k))
ZToInt(a) == IF a.n THEN -BToInt(a.m) ELSE BToInt(a.m)
ZSmall(a) == BLess(a.m, BFromInt(4096))

Ty(name) == CASE name = "i8"  -> [bits |-> 8,  signed |-> TRUE]  [] name = "u8"  -> [bits |-> 8,  signed |-> FALSE]
              [] name = "i16" -> [bits |-> 16, signed |-> TRUE]  [] name = "u16" -> [bits |-> 16, signed |-> FALSE]
              [] name = "i32" -> [bits |-> 32, signed |-> TRUE]  [] name = "u32" -> [bits |-> 32, signed |-> FALSE]
              [] name = "i64" -> [bits |-> 64, signed |-> TRUE]  [] name = "u64" -> [bits |-> 64, signed |-> FALSE]
              [] name = "i4" -> [bits |-> 4, signed |-> TRUE]    [] name = "u4" -> [bits |-> 4, signed |-> FALSE]
Digits(ty) == IF ty.signed THEN ty.bits - 1 ELSE ty.bits
TMax(ty) == ZSub(ZPow2(Digits(ty)), ZInt(1))
TMin(ty) == IF ty.signed THEN ZNeg(ZPow2(ty.bits - 1)) ELSE ZInt(0)
InTy(ty, a) == ZLe(TMin(ty), a) /\ ZLe(a, TMax(ty))
Clamp(ty, a) == IF ZLess(a, TMin(ty)) THEN TMin(ty) ELSE IF ZLess(TMax(ty), a) THEN TMax(ty) ELSE a
UnsignedOf(ty) == [bits |-> ty.bits, signed |-> FALSE]
\* the type whose largest value is larger
Wider(s, u) == IF Digits(s) >= Digits(u) THEN s ELSE u
ToBits(a, w) == IF a.n THEN BSub(BShl(BFromInt(1), w), a.m) ELSE a.m     \* two's complement, |a| <= 2^w

\* The exact result of an operation of a value x of type tx with y: whether there is one, and it.
None == [ok |-> FALSE, v |-> ZInt(0)]
Some(v) == [ok |-> TRUE, v |-> v]
Exact(op, tx, ty, x, y) ==
  CASE op = "add" -> Some(ZAdd(x, y)) [] op = "sub" -> Some(ZSub(x, y)) [] op = "mul" -> Some(ZMul(x, y))
    [] op = "div" -> IF ZIsZero(y) THEN None ELSE Some(ZDiv(x, y))
    [] op = "mod" -> IF ZIsZero(y) THEN None ELSE Some(ZMod(x, y))
    \* shifts are defined for counts below the width, left shifts for non-negative values
    [] op = "lsh" -> IF x.n \/ y.n \/ ZLe(ZInt(tx.bits), y) THEN None ELSE Some(ZShl(x, ZToInt(y)))
    [] op = "rsh" -> IF y.n \/ ZLe(ZInt(tx.bits), y) THEN None ELSE Some(ZShrFloor(x, ZToInt(y)))
    [] op = "and" -> LET w == Wider(tx, ty).bits IN Some(Z(FALSE, BAnd(ToBits(x, w), ToBits(y, w))))
    [] op = "or"  -> LET w == Wider(tx, ty).bits IN Some(Z(FALSE, BOr(ToBits(x, w), ToBits(y, w))))
    [] op = "xor" -> LET w == Wider(tx, ty).bits IN Some(Z(FALSE, BXor(ToBits(x, w), ToBits(y, w))))
    [] op = "max" -> Some(IF ZLess(x, y) THEN y ELSE x)
    [] op = "min" -> Some(IF ZLess(x, y) THEN x ELSE y)
ResultTy(op, tx, ty) == CASE op \in {"add", "sub", "mul", "div", "mod", "max"} -> Wider(tx, ty)
                          [] op \in {"lsh", "rsh"} -> tx
                          [] op \in {"and", "or", "xor"} -> UnsignedOf(Wider(tx, ty))
\* checked: valid exactly when the exact result exists and fits
ChkValid(op, tx, ty, rt, x, y) == LET e == Exact(op, tx, ty, x, y) IN e.ok /\ InTy(rt, e.v)
\* clamped: the nearest representable value; the documented values where there is no exact result
ClpValue(op, tx, ty, rt, x, y) ==
  CASE op = "div" /\ ZIsZero(y) -> IF ZIsZero(x) THEN ZInt(0) ELSE IF x.n THEN TMin(rt) ELSE TMax(rt)
    [] op = "mod" /\ ZIsZero(y) -> Clamp(rt, x)
    [] op = "lsh" -> IF ZIsZero(x) THEN x ELSE IF ZLe(ZInt(tx.bits), y) THEN (IF x.n THEN TMin(rt) ELSE TMax(rt)) ELSE Clamp(rt, ZShl(x, ZToInt(y)))
    [] op = "rsh" -> IF ZLe(ZInt(tx.bits), y) THEN (IF x.n THEN ZInt(-1) ELSE ZInt(0)) ELSE ZShrFloor(x, ZToInt(y))
    [] OTHER -> Clamp(rt, Exact(op, tx, ty, x, y).v)
\* a binary fraction m * 2^e compared with an integer
FLe(m, e, a) == IF e >= 0 THEN ZLe(ZShl(m, e), a) ELSE ZLe(m, ZShl(a, -e))
FGe(m, e, a) == IF e >= 0 THEN ZLe(a, ZShl(m, e)) ELSE ZLe(ZShl(a, -e), m)
FTrunc(m, e) == IF e >= 0 THEN ZShl(m, e) ELSE Z(m.n, BShr(m.m, -e))
FFloor(m, e) == IF e >= 0 THEN ZShl(m, e) ELSE ZShrFloor(m, -e)
FCeil(m, e) == ZNeg(FFloor(ZNeg(m), e))
FRound(m, e) == IF e >= 0 THEN ZShl(m, e) ELSE LET h == Z(FALSE, BShr(BAdd(m.m, BShl(BFromInt(1), -e - 1)), -e)) IN Z(m.n, h.m)   \* half away from zero
=============================================================================
