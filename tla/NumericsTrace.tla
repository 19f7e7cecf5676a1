---------------------------- MODULE NumericsTrace ----------------------------
(* Recorded uses of range checks, casts, checked and clamped numerics.          *)
(* State: one checked and one clamped accumulator of type c.ty.                 *)
EXTENDS Numerics, TraceBase
VARIABLE c
Init == TInit /\ c = [ty |-> "i8", ok |-> FALSE, v |-> ZInt(0), w |-> ZInt(0)]
P(e) == Z(e[1] = 1, Tail(e))
K == UNCHANGED c
TPair == /\ Is("Pair") /\ K
  /\ LET tx == Ty(E.lt)
         ty == Ty(E.rt)
         x == P(E.x)
         y == P(E.y)
     IN /\ \A i \in 1..Len(E.chk) : LET r == E.chk[i]
                                        rt == Ty(r[2])
                                    IN /\ (r[1] # "min" => rt = ResultTy(r[1], tx, ty))
                                       /\ r[3] = ChkValid(r[1], tx, ty, rt, x, y)
                                       /\ (r[3] => P(r[4]) = Exact(r[1], tx, ty, x, y).v)
        /\ \A i \in 1..Len(E.clp) : LET r == E.clp[i]
                                        rt == Ty(r[2])
                                    IN /\ (r[1] # "min" => rt = ResultTy(r[1], tx, ty))
                                       /\ P(r[3]) = ClpValue(r[1], tx, ty, rt, x, y)
        /\ E.cmp = << ZLess(x, y), ZLe(x, y), ZLess(y, x), ZLe(y, x), x = y, x # y >>
        /\ E.ccmp = E.cmp
TUn == /\ Is("Un") /\ K
  /\ LET tx == Ty(E.t)
         x == P(E.x)
     IN /\ E.neg[1] = InTy(tx, ZNeg(x)) /\ (E.neg[1] => P(E.neg[2]) = ZNeg(x))
        /\ E.abs[1] = InTy(tx, ZAbs(x)) /\ (E.abs[1] => P(E.abs[2]) = ZAbs(x))
        /\ E.uabs[1] /\ P(E.uabs[2]) = ZAbs(x) /\ P(E.sabs) = ZAbs(x)
        /\ P(E.cneg) = Clamp(tx, ZNeg(x)) /\ P(E.cabs) = Clamp(tx, ZAbs(x)) /\ P(E.cuabs) = ZAbs(x)
        /\ (~tx.signed => E.inv[1] /\ P(E.inv[2]) = ZSub(TMax(tx), x) /\ P(E.cinv) = ZSub(TMax(tx), x))
        /\ E.isneg = x.n
        /\ P(E.asu) = Z(FALSE, ToBits(x, tx.bits))
        /\ P(E.ass) = (LET u == Z(FALSE, ToBits(x, tx.bits)) IN IF ZLess(u, ZPow2(tx.bits - 1)) THEN u ELSE ZSub(u, ZPow2(tx.bits)))
        /\ E.inc[1] = InTy(tx, ZAdd(x, ZInt(1))) /\ (E.inc[1] => P(E.inc[2]) = ZAdd(x, ZInt(1)))
        /\ E.dec[1] = InTy(tx, ZSub(x, ZInt(1))) /\ (E.dec[1] => P(E.dec[2]) = ZSub(x, ZInt(1)))
        /\ P(E.cinc) = Clamp(tx, ZAdd(x, ZInt(1))) /\ P(E.cdec) = Clamp(tx, ZSub(x, ZInt(1)))
TCast == /\ Is("Cast") /\ K
  /\ LET d == Ty(E.dt)
         x == P(E.x)
     IN /\ E.in = InTy(d, x) /\ E.ok = E.in /\ E.assign = E.in
        /\ (E.in => P(E.v) = x /\ P(E.cast) = x)
        /\ P(E.dflt) = (IF InTy(d, x) THEN x ELSE ZInt(7))
        /\ P(E.sat) = Clamp(d, x) /\ P(E.csat) = Clamp(d, x)
TCastF == /\ Is("CastF") /\ K
  /\ LET d == Ty(E.dt)
         m == P(E.m)
     IN IF E.kind = "nan" THEN ~E.in /\ ~E.ok /\ P(E.sat) = ZInt(0)
        ELSE IF E.kind = "inf" THEN ~E.in /\ ~E.ok /\ P(E.sat) = (IF m.n THEN TMin(d) ELSE TMax(d))
        \* a fraction above -1 truncates to 0, which every unsigned type has
        ELSE LET in == (IF d.signed THEN FGe(m, E.e, TMin(d)) ELSE ~FLe(m, E.e, ZInt(-1))) /\ FLe(m, E.e, TMax(d))
             IN /\ E.in = in /\ E.ok = in /\ (in => P(E.v) = FTrunc(m, E.e))
                /\ P(E.sat) = (IF in THEN FTrunc(m, E.e) ELSE IF m.n THEN TMin(d) ELSE TMax(d))
                /\ P(E.fl) = Clamp(d, FFloor(m, E.e)) /\ P(E.ce) = Clamp(d, FCeil(m, E.e)) /\ P(E.ro) = Clamp(d, FRound(m, E.e))
TSet == /\ Is("Set") /\ c' = [ty |-> E.t, ok |-> TRUE, v |-> P(E.x), w |-> P(E.x)]
\* an accumulator of type ty is updated by a value of type rt (itself possibly invalid)
TOp == /\ Is("Op")
  /\ LET tx == Ty(c.ty)
         ty == Ty(E.rt)
         y == P(E.y)
         ok == c.ok /\ E.yok /\ ChkValid(E.o, tx, ty, tx, c.v, y)
         v == IF ok THEN Exact(E.o, tx, ty, c.v, y).v ELSE ZInt(0)
         w == IF E.clamped THEN ClpValue(E.o, tx, ty, tx, c.w, y) ELSE c.w
     IN /\ E.valid = ok
        /\ (ok => P(E.v) = v)
        /\ (E.clamped => P(E.w) = w)
        /\ c' = [ty |-> c.ty, ok |-> ok, v |-> v, w |-> w]
TVar == /\ Is("Variadic") /\ K
        /\ LET s == P(E.a)
               ty == Ty("i64")
               a1 == ChkValid(E.o, ty, ty, ty, s, P(E.b))
               r1 == IF a1 THEN Exact(E.o, ty, ty, s, P(E.b)).v ELSE ZInt(0)
               a2 == a1 /\ ChkValid(E.o, ty, ty, ty, r1, P(E.d))
           IN /\ E.valid = a2 /\ (a2 => P(E.v) = Exact(E.o, ty, ty, r1, P(E.d)).v)
              /\ P(E.w) = ClpValue(E.o, ty, ty, ty, ClpValue(E.o, ty, ty, ty, s, P(E.b)), P(E.d))
Next == TPair \/ TUn \/ TCast \/ TCastF \/ TSet \/ TOp \/ TVar \/ (TDone /\ UNCHANGED tvars /\ K)
=============================================================================
