---------------------------- MODULE NumericsModel ----------------------------
(* The bit-level algorithms behind the checked operations, exhaustively on      *)
(* 4-bit machine integers: each decides representability exactly as Numerics.   *)
EXTENDS Numerics, TLC
VARIABLES tx, x, y
W == 16
Vals(s) == IF s THEN -8..7 ELSE 0..15
Init == tx \in {"i4", "u4"} /\ x \in Vals(tx = "i4") /\ y \in Vals(tx = "i4")
Next == UNCHANGED << tx, x, y >>
S == tx = "i4"
U(a) == a % W                                   \* to unsigned
Sg(a) == IF a >= 8 THEN a - W ELSE a            \* reinterpret as signed
To(a) == IF S THEN Sg(U(a)) ELSE U(a)
Neg(a) == IF S THEN Sg(U(a)) < 0 ELSE FALSE
RECURSIVE BitX(_, _)
BitX(a, b) == IF a = 0 /\ b = 0 THEN 0 ELSE (((a % 2) + (b % 2)) % 2) + 2 * BitX(a \div 2, b \div 2)
RECURSIVE BitA(_, _)
BitA(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (a % 2) * (b % 2) + 2 * BitA(a \div 2, b \div 2)
\* CheckedAddImpl, CheckedSubImpl, CheckedMulImpl
AddOk == LET r == (U(x) + U(y)) % W IN ~(IF S THEN Sg(BitA(BitX(r, U(x)), BitX(r, U(y)))) < 0 ELSE r < U(y))
SubOk == LET r == (U(x) + W - U(y)) % W IN ~(IF S THEN Sg(BitA(BitX(r, U(x)), BitX(U(x), U(y)))) < 0 ELSE x < y)
Ab(a) == IF a < 0 THEN -a ELSE a
MulOk == LET neg == S /\ Sg(BitX(U(x), U(y))) < 0
             ux == Ab(x)
             uy == Ab(y)
             mx == IF S THEN 7 ELSE 15
             n == IF neg THEN 1 ELSE 0
         IN ~(uy > (IF ~S \/ neg THEN 1 ELSE 0) /\ ux > (mx + n) \div uy)
LshOk(k) == LET r == To(x * 2^k) IN IF x >= 0 /\ k < (IF S THEN 3 ELSE 4) THEN r \div 2^k = x ELSE S /\ x = 0 /\ k = 3
T4 == Ty(tx)
Ok(op) == ChkValid(op, T4, T4, T4, ZInt(x), ZInt(y))
Adds == AddOk = Ok("add")
Subs == SubOk = Ok("sub")
\* the multiplication test is only exact together with a zero operand short cut
Muls == MulOk = Ok("mul")
Lshs == \A k \in 0..5 : LshOk(k) = ChkValid("lsh", T4, T4, T4, ZInt(x), ZInt(k))
Divs == (y # 0 /\ ~(S /\ x = -8 /\ y = -1)) = Ok("div")
Casts == /\ (S => (x = x % W) = InTy(Ty("u4"), ZInt(x)))
         /\ Clamp(T4, ZAdd(ZInt(x), ZInt(y))) = (IF AddOk THEN ZInt(To(x + y)) ELSE IF y < 0 THEN TMin(T4) ELSE TMax(T4))
         /\ Clamp(T4, ZSub(ZInt(x), ZInt(y))) = (IF SubOk THEN ZInt(To(x - y)) ELSE IF y < 0 THEN TMax(T4) ELSE TMin(T4))
         /\ Clamp(T4, ZMul(ZInt(x), ZInt(y))) = (IF MulOk THEN ZInt(To(x * y)) ELSE IF (x < 0) # (y < 0) THEN TMin(T4) ELSE TMax(T4))
Bits == \A op \in {"and", "or", "xor"} : InTy(Ty("u4"), Exact(op, T4, T4, ZInt(x), ZInt(y)).v)
=============================================================================
