------------------------------- MODULE TimeTrace -------------------------------
(* Recorded histories of a duration da, a time point ta, a fake monotonic clock *)
(* ck (nanoseconds) and interval measurers iv (last reading) and sp (base).     *)
EXTENDS Time, TraceBase
VARIABLES da, ta, ck, iv, sp
vars == << da, ta, ck, iv, sp >>
Init == TInit /\ da = Z0 /\ ta = Z0 /\ ck = Z0 /\ iv = Z0 /\ sp = Z0
P(e) == Z(e[1] = 1, Tail(e))
K == UNCHANGED vars
Ps(x) == [i \in 1..Len(x) |-> P(x[i])]
\* a duration combined with another, an integer and a binary fraction
TPair == /\ Is("Pair") /\ K
  /\ LET a == P(E.a)
         b == P(E.b)
         k == P(E.k)
     IN /\ E.addok = DAddOk(a, b) /\ (E.addok => Ps(E.add) = << DAdd(a, b), DAdd(a, b) >>)
        /\ E.subok = DSubOk(a, b) /\ (E.subok => Ps(E.sub) = << DSub(a, b), DSub(a, b) >>)
        /\ E.cmp = << a = b, a # b, ZLess(a, b), ZLe(a, b), ZLess(b, a), ZLe(b, a) >>
        /\ Ps(E.mul) = << DMul(a, k), DMul(a, k), DMul(a, k) >> /\ Ps(E.div) = << DDiv(a, k), DDiv(a, k) >>
        /\ E.idok = DIntDivOk(a, b) /\ (E.idok => P(E.idiv) = DIntDiv(a, b))
        /\ Ps(E.mod) = << DMod(a, b), DMod(a, b) >>
        /\ P(E.ceil) = DCeil(a, b) /\ P(E.floor) = DFloor(a, b) /\ P(E.round) = DRound(a, b)
TFrac == /\ Is("Frac") /\ K
  /\ P(E.mul) = DMulF(P(E.a), P(E.m), E.e) /\ P(E.mul2) = P(E.mul) /\ P(E.div) = C64(FTrunc(P(E.a), E.j)) /\ P(E.secs) = C64(FTrunc(ZMul(P(E.m), USec), E.e))
  /\ P(E.ms) = C64(FTrunc(ZMul(P(E.m), ZK(1000)), E.e)) /\ P(E.fromd) = C64(FTrunc(ZMul(P(E.m), USec), E.e))
TUn == /\ Is("Un") /\ K
  /\ LET a == P(E.a)
     IN /\ P(E.neg) = DNeg(a) /\ P(E.mag) = DMag(a)
        /\ E.flags = << ZIsZero(a), ~a.n /\ ~ZIsZero(a), a.n, a = Mx, a = Mn, Inf(a) >>
        /\ P(E.days) = InDays(a) /\ P(E.daysfl) = InDaysFl(a) /\ P(E.hours) = SatI32(ZDiv(a, UHour)) /\ P(E.mins) = SatI32(ZDiv(a, UMin))
        /\ P(E.secs) = InUnits(a, USec) /\ P(E.secsfl) = (IF Inf(a) THEN a ELSE ZFloorDiv(a, USec))
        /\ P(E.ms) = InUnits(a, ZK(1000)) /\ P(E.msup) = (IF Inf(a) THEN a ELSE ZCeilDiv(a, ZK(1000)))
        /\ P(E.us) = a /\ P(E.ns) = C64(ZMul(a, ZK(1000)))
        /\ Ps(E.chrono) = << SatI32(ZDiv(a, UHour)), SatI32(ZDiv(a, UMin)), InUnits(a, USec), InUnits(a, ZK(1000)), a, C64(ZMul(a, ZK(1000))) >>
        /\ Ps(E.chronot) = Ps(E.chrono)
        /\ P(E.absl) = a /\ P(E.abslback) = a
        \* timespec: a normalised pair denoting a
        /\ ZAdd(ZMul(P(E.ts[1]), Mega), ZDiv(P(E.ts[2]), ZK(1000))) = a /\ ~P(E.ts[2]).n /\ ZLess(P(E.ts[2]), ZInt(1000000000)) /\ P(E.tsback) = a
        /\ E.finf = << Inf(a), Inf(a), Inf(a) >>
        /\ (~Inf(a) => NearQ(P(E.f[1][1]), E.f[1][2], a, Mega) /\ NearQ(P(E.f[2][1]), E.f[2][2], a, ZK(1000)) /\ NearQ(P(E.f[3][1]), E.f[3][2], a, ZK(1)))
        /\ (ZLess(ZAbs(a), ZShl(ZK(1), 50)) => P(E.chrdays) = ZDiv(a, UDay))
TMake == /\ Is("Make") /\ K
  /\ LET k == P(E.k) IN
     /\ Ps(E.v) = << FromUnit("d", k), FromUnit("h", k), FromUnit("m", k), FromUnit("s", k), FromUnit("ms", k), FromUnit("us", k), FromUnit("ns", k) >>
     /\ P(E.hz) = (IF ZIsZero(k) THEN Mx ELSE ZDiv(Mega, k))
TChrono == /\ Is("Chrono") /\ K
  /\ LET k == P(E.k) IN
     LET all == << FromUnit("h", k), FromUnit("m", k), FromUnit("s", k), FromUnit("ms", k), FromUnit("us", k), FromUnit("ns", k) >>
     IN Ps(E.v) = all /\ Ps(E.tv) = all /\ Ps(E.tp) = << FromUnit("ns", k), FromUnit("ns", k) >>
TSpec == /\ Is("TimeSpec") /\ K
  /\ LET v == ZAdd(ZMul(P(E.s), Mega), ZDiv(ZInt(E.ns), ZK(1000))) IN P(E.d) = C64(v) /\ P(E.tm) = C64(v)
TVal == /\ Is("TimeVal") /\ K
  /\ P(E.tm) = C64(ZAdd(ZMul(P(E.s), Mega), ZInt(E.us)))
\* a time point converted
TPoint == /\ Is("Point") /\ K
  /\ LET x == P(E.x)
     IN /\ E.flags = << ZIsZero(x), x = Mx, x = Mn, Inf(x) >>
        /\ P(E.since) = x /\ P(E.orig) = x
        /\ P(E.tt) = (IF Inf(x) THEN x ELSE ZFloorDiv(x, USec)) /\ P(E.fromtt) = C64(ZMul(P(E.tt), Mega))
        /\ (x # Mx => ZAdd(ZMul(P(E.tv[1]), Mega), P(E.tv[2])) = x /\ ZLess(ZAbs(P(E.tv[2])), Mega)) /\ P(E.tvback) = x
        /\ P(E.absl) = x /\ P(E.abslback) = x
        /\ P(E.chrono) = C64(ZMul(x, ZK(1000))) /\ P(E.ticks) = P(E.chrono)
        /\ (InTy(I64, ZMul(x, ZK(1000))) => P(E.chronoback) = x /\ P(E.ticksback) = x)
        /\ E.dinf = Inf(x) /\ (~Inf(x) => NearQ(P(E.dbl[1]), E.dbl[2], x, Mega))
        /\ (E.text # << >> => CivilIs(E.text, x))
        /\ (LET n == Len(E.tick) - 18 IN IsDec(Sub(E.tick, 1, n), x) /\ From(E.tick, n + 1) = << 32,98,111,103,111,45,109,105,99,114,111,115,101,99,111,110,100,115 >>)
TPoints == /\ Is("Points") /\ K
  /\ LET x == P(E.x)
         y == P(E.y)
         b == P(E.d)
     IN /\ E.cmp = << x = y, x # y, ZLess(x, y), ZLe(x, y), ZLess(y, x), ZLe(y, x) >>
        /\ P(E.diff) = C64(ZSub(x, y))
        /\ E.plusok = DAddOk(x, b) /\ (E.plusok => Ps(E.plus) = << DAdd(x, b), DAdd(x, b), DAdd(x, b) >>)
        /\ E.minusok = DSubOk(x, b) /\ (E.minusok => Ps(E.minus) = << DSub(x, b), DSub(x, b) >>)
TFlag == /\ Is("Flag") /\ K
  /\ LET r == ParseDelta(E.s) IN E.ok = r.ok /\ (r.ok => IF E.exact THEN P(E.v) = r.v ELSE ZLe(ZAbs(ZSub(P(E.v), r.v)), ZK(1)))
\* histories
TSet == /\ Is("Set") /\ da' = P(E.d) /\ ta' = P(E.x) /\ UNCHANGED << ck, iv, sp >>
TStep == /\ Is("Step")
  /\ LET b == P(E.b)
     IN da' = (CASE E.o = "add" -> DAdd(da, b) [] E.o = "sub" -> DSub(da, b) [] E.o = "mul" -> DMul(da, b) [] E.o = "div" -> DDiv(da, b) [] E.o = "mod" -> DMod(da, b) [] E.o = "diff" -> C64(ZSub(ta, b)) [] OTHER -> da)
        /\ ta' = (CASE E.o = "tplus" -> DAdd(ta, b) [] E.o = "tminus" -> DSub(ta, b) [] OTHER -> ta)
  /\ P(E.d) = da' /\ P(E.x) = ta' /\ UNCHANGED << ck, iv, sp >>
\* the clock: microseconds are its nanoseconds truncated
Us == ZDiv(ck, ZK(1000))
TClock == /\ Is("Clock") /\ ck' = P(E.ns) /\ UNCHANGED << da, ta, iv, sp >>
TNow == /\ Is("Now") /\ K /\ P(E.ticks) = Us /\ P(E.thread) = Us /\ P(E.time) = Us
TIv == /\ Is("Interval") /\ P(E.v) = (IF ZIsZero(iv) THEN Z0 ELSE C64(ZSub(Us, iv))) /\ iv' = (IF E.update THEN Us ELSE iv) /\ UNCHANGED << da, ta, ck, sp >>
TIvR == /\ Is("IntervalReset") /\ iv' = (IF E.now THEN Us ELSE P(E.at)) /\ UNCHANGED << da, ta, ck, sp >>
TSp == /\ Is("Stamp") /\ LET n == IF E.update /\ ZIsZero(sp) THEN Us ELSE sp IN P(E.v) = C64(ZSub(Us, n)) /\ sp' = n
  /\ UNCHANGED << da, ta, ck, iv >>
TSpR == /\ Is("StampNew") /\ sp' = Z0 /\ UNCHANGED << da, ta, ck, iv >>
Next == TPair \/ TFrac \/ TUn \/ TMake \/ TChrono \/ TSpec \/ TVal \/ TPoint \/ TPoints \/ TFlag \/ TSet \/ TStep \/ TClock \/ TNow \/ TIv \/ TIvR \/ TSp \/ TSpR \/ (TDone /\ UNCHANGED tvars /\ K)
=============================================================================
