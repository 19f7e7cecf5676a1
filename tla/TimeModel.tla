------------------------------- MODULE TimeModel -------------------------------
(* The calendar of Time against day-by-day counting, and laws of saturating     *)
(* durations on sampled corner values.                                          *)
EXTENDS Time, TLC
VARIABLES y, mo, d, day
Init == y = 1896 /\ mo = 1 /\ d = 1 /\ day = DayNum(1896, 1, 1)
Next == IF y = 2105 THEN UNCHANGED << y, mo, d, day >>
        ELSE /\ day' = day + 1
             /\ IF d < MonthLen(y, mo) THEN d' = d + 1 /\ mo' = mo /\ y' = y
                ELSE IF mo < 12 THEN d' = 1 /\ mo' = mo + 1 /\ y' = y ELSE d' = 1 /\ mo' = 1 /\ y' = y + 1
DayOk == DayNum(y, mo, d) = day /\ ValidDate(y, mo, d)
EpochOk == (y = 1970 /\ mo = 1 /\ d = 1) => day = 0
Known == (y = 2000 /\ mo = 3 /\ d = 1) => day = 11017
V == {Mn, ZAdd(Mn, ZK(1)), ZAdd(Mn, ZK(5)), ZK(-7), ZK(-1), Z0, ZK(1), ZK(7), ZK(1000001), ZSub(Mx, ZK(4)), ZSub(Mx, ZK(1)), Mx}
Far(a) == ZLess(ZAbs(a), ZPow2(62))
Laws == day = DayNum(1896, 1, 1) =>
  \A a, b \in V :
    /\ (Far(b) /\ ~Inf(a) => DSub(a, b) = DAdd(a, DNeg(b)))
    /\ (DAddOk(a, b) => ZLe(Mn, DAdd(a, b)) /\ ZLe(DAdd(a, b), Mx) /\ (~Inf(a) /\ ~Inf(b) => DAdd(a, b) = DAdd(b, a)))
    /\ (Far(a) \/ Inf(a) => DNeg(DNeg(a)) = a)
    /\ ZLe(DFloor(a, b), a) /\ ZLe(a, DCeil(a, b)) /\ (Far(a) /\ Far(b) => DCeil(a, b) = DNeg(DFloor(DNeg(a), b)))
    /\ (Far(a) /\ Far(b) => DRound(a, b) = DNeg(DRound(DNeg(a), b)) /\ ZLe(DFloor(a, b), DRound(a, b)) /\ ZLe(DRound(a, b), DCeil(a, b)))
    /\ (DIntDivOk(a, b) /\ ~Inf(a) /\ ~Inf(b) /\ ~ZIsZero(b) => ZAdd(ZMul(DIntDiv(a, b), b), DMod(a, b)) = a)
=============================================================================
