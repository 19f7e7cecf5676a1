--------------------------------- MODULE Time ---------------------------------
(* Durations and time points of tachyon::base: counts of microseconds in a      *)
(* signed 64-bit integer whose largest and smallest values stand for the        *)
(* infinities; calendar time in UTC.                                            *)
EXTENDS Text
I64 == Ty("i64")
I32 == Ty("i32")
Mx == TMax(I64)
Mn == TMin(I64)
C64(a) == Clamp(I64, a)
Inf(a) == a = Mx \/ a = Mn
Z0 == ZInt(0)
ZK(k) == ZInt(k)
Mega == ZInt(1000000)
USec == Mega
UMin == ZMul(ZK(60), Mega)
UHour == ZMul(ZK(3600), Mega)
UDay == ZMul(ZK(86400), Mega)
Unit(u0) == CASE u0 = "d" -> UDay [] u0 = "h" -> UHour [] u0 = "m" -> UMin [] u0 = "s" -> USec [] u0 = "ms" -> ZK(1000) [] u0 = "us" -> ZK(1)
ZFloorDiv(a, b) == LET d == ZDiv(a, b) IN IF a.n # b.n /\ ~ZIsZero(ZMod(a, b)) THEN ZSub(d, ZK(1)) ELSE d
ZCeilDiv(a, b) == ZNeg(ZFloorDiv(ZNeg(a), b))
DAddOk(a, b) == ~(Inf(a) /\ Inf(b) /\ a # b)
DAdd(a, b) == IF Inf(b) THEN b ELSE C64(ZAdd(a, b))
DSubOk(a, b) == ~(Inf(b) /\ a = b)
DSub(a, b) == IF b = Mx THEN Mn ELSE IF b = Mn THEN Mx ELSE C64(ZSub(a, b))
DNeg(a) == IF a = Mn THEN Mx ELSE IF a = Mx THEN Mn ELSE ZNeg(a)
DMag(a) == C64(ZAbs(a))
DMul(a, k) == C64(ZMul(a, k))
DDiv(a, k) == IF ZIsZero(k) THEN (IF ZIsZero(a) THEN Z0 ELSE IF a.n THEN Mn ELSE Mx) ELSE C64(ZDiv(a, k))
\* times m 2^e, truncated
DMulF(a, m, e) == C64(FTrunc(ZMul(a, m), e))
DIntDivOk(a, b) == (~Inf(a) /\ ~ZIsZero(b)) \/ (~(ZIsZero(a) /\ ZIsZero(b)) /\ ~(Inf(a) /\ Inf(b)))
DIntDiv(a, b) == IF ~Inf(a) /\ ~ZIsZero(b) THEN C64(ZDiv(a, b)) ELSE IF a.n = b.n THEN Mx ELSE Mn
DMod(a, b) == IF Inf(a) \/ ZIsZero(b) \/ Inf(b) THEN a ELSE ZMod(a, b)
\* multiples of an interval of magnitude i; an infinite interval has only 0 and the infinities as multiples
DCeil(a, b) == IF Inf(a) \/ ZIsZero(b) THEN a ELSE IF Inf(b) THEN (IF a.n \/ ZIsZero(a) THEN Z0 ELSE Mx) ELSE C64(ZMul(ZCeilDiv(a, ZAbs(b)), ZAbs(b)))
DFloor(a, b) == IF Inf(a) \/ ZIsZero(b) THEN a ELSE IF Inf(b) THEN (IF a.n THEN Mn ELSE Z0) ELSE C64(ZMul(ZFloorDiv(a, ZAbs(b)), ZAbs(b)))
\* halves away from zero
DRound(a, b) == IF Inf(a) \/ ZIsZero(b) THEN a ELSE IF Inf(b) THEN Z0
                ELSE LET h == ZDiv(ZAbs(b), ZK(2)) IN IF a.n THEN DCeil(C64(ZSub(a, h)), b) ELSE DFloor(C64(ZAdd(a, h)), b)
SatI32(a) == Clamp(I32, a)
\* the number of whole units, saturated to 32 or 64 bits
InDays(a) == IF a = Mx THEN TMax(I32) ELSE IF a = Mn THEN TMin(I32) ELSE ZDiv(a, UDay)
InDaysFl(a) == IF a = Mx THEN TMax(I32) ELSE IF a = Mn THEN TMin(I32) ELSE ZFloorDiv(a, UDay)
InUnits(a, u0) == IF Inf(a) THEN a ELSE ZDiv(a, u0)
\* a double m 2^e is a / k up to a relative error of 2^-50
NearQ(m, e, a, k) == LET p0 == IF e >= 0 THEN ZShl(ZMul(m, k), e) ELSE ZMul(m, k)
                         q0 == IF e >= 0 THEN a ELSE ZShl(a, -e)
                     IN BLe(BShl(ZSub(p0, q0).m, 50), q0.m)
\* the civil calendar
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysBefore(y) == 365 * y + (y + 3) \div 4 - (y + 99) \div 100 + (y + 399) \div 400        \* days of years 0 .. y-1
MonthLen(y, mo) == IF mo = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF mo \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE MonthDays(_, _)
MonthDays(y, mo) == IF mo = 1 THEN 0 ELSE MonthDays(y, mo - 1) + MonthLen(y, mo - 1)
DayNum(y, mo, d) == DaysBefore(y) + MonthDays(y, mo) + d - 1 - 719528
ValidDate(y, mo, d) == mo \in 1..12 /\ d \in 1..MonthLen(y, mo)
N2(s, i) == 10 * (s[i] - 48) + s[i + 1] - 48
\* YYYY-MM-DDThh:mm:ss[.f]+00:00 denotes a (microseconds)
CivilIs(s, a) ==
  /\ Len(s) >= 25 /\ s[5] = 45 /\ s[8] = 45 /\ s[11] = 84 /\ s[14] = 58 /\ s[17] = 58
  /\ \A i \in {1, 2, 3, 4, 6, 7, 9, 10, 12, 13, 15, 16, 18, 19} : IsDig(s[i])
  /\ Sub(s, Len(s) - 5, Len(s)) = << 43, 48, 48, 58, 48, 48 >>
  /\ LET f == Sub(s, 20, Len(s) - 6)
         y == 100 * N2(s, 1) + N2(s, 3)
         fr == IF f = << >> THEN << >> ELSE Tail(f)
     IN /\ (f # << >> => f[1] = 46 /\ Digits10(fr) /\ fr[Len(fr)] # 48 /\ Len(fr) <= 6)
        /\ ValidDate(y, N2(s, 6), N2(s, 9)) /\ N2(s, 12) < 24 /\ N2(s, 15) < 60 /\ N2(s, 18) < 60
        /\ a = ZAdd(ZAdd(ZMul(ZK(DayNum(y, N2(s, 6), N2(s, 9))), UDay), ZMul(ZK(3600 * N2(s, 12) + 60 * N2(s, 15) + N2(s, 18)), Mega)),
                    IF fr = << >> THEN Z0 ELSE Z(FALSE, BMul(NumVal(fr, 10), Ten(6 - Len(fr)))))
\* text with a unit suffix
SufUs == << 117, 115 >>
SufMs == << 109, 115 >>
SufNs == << 110, 115 >>
Suffix(s) == IF EndsWith(s, << 100 >>) THEN << "d", 1 >> ELSE IF EndsWith(s, << 104 >>) THEN << "h", 1 >> ELSE IF EndsWith(s, << 109 >>) THEN << "m", 1 >>
             ELSE IF EndsWith(s, SufMs) THEN << "ms", 2 >> ELSE IF EndsWith(s, SufUs) THEN << "us", 2 >> ELSE IF EndsWith(s, SufNs) THEN << "ns", 2 >>
             ELSE IF EndsWith(s, << 115 >>) THEN << "s", 1 >> ELSE << "", 0 >>
FromUnit(u0, k) == IF u0 = "ns" THEN C64(ZDiv(k, ZK(1000))) ELSE C64(ZMul(k, Unit(u0)))
ParseDelta(s) ==
  LET sf == Suffix(s)
      b == Sub(s, 1, Len(s) - sf[2])
      i == ParseInt(I64, b, 10)
      f == DecFrac(Strip(b))
  IN IF sf[2] = 0 THEN Bad
     ELSE IF sf[1] \in {"d", "h", "m"} THEN (IF i.ok /\ InTy(I32, i.v) THEN [ok |-> TRUE, v |-> FromUnit(sf[1], i.v)] ELSE Bad)
     ELSE IF i.ok THEN [ok |-> TRUE, v |-> FromUnit(sf[1], i.v)]
     ELSE IF Strip(b) = << >> \/ ~f.ok THEN Bad
     ELSE [ok |-> TRUE, v |-> LET z == Z(f.n, f.m) IN IF sf[1] = "ns" THEN C64(ZDiv(z, Z(FALSE, BMul(Ten(f.k), BFromInt(1000))))) ELSE C64(ZDiv(ZMul(z, Unit(sf[1])), Z(FALSE, Ten(f.k))))]
=============================================================================
