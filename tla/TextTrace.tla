------------------------------ MODULE TextTrace ------------------------------
(* Recorded conversions between numbers and text and uses of string utilities.  *)
EXTENDS Text, TraceBase
Init == TInit
P(e) == Z(e[1] = 1, Tail(e))
\* numbers formatted and parsed back
TNum == /\ Is("Num")
  /\ LET ty == Ty(E.t)
         x == P(E.x)
     IN /\ IsDec(E.dec, x) /\ E.back = TRUE
        /\ IsHexLower(E.hex, IF x.n THEN BSub(BShl(BFromInt(1), ty.bits), x.m) ELSE x.m) /\ (~x.n => E.hback = TRUE)
        /\ (ParseInt(ty, E.dec, 10)).v = x
TParse == /\ Is("Parse")
  /\ LET r == ParseInt(Ty(E.t), E.s, E.base) IN E.ok = r.ok /\ (r.ok => P(E.v) = r.v)
TFloat == /\ Is("Float")
  /\ LET r == DecFrac(E.s) IN IF ~r.ok THEN ~E.ok ELSE E.ok /\ Nearest(E.m, E.e, r.m, r.k) /\ (E.m # << >> => E.neg = r.n)
THexB == /\ Is("HexBytes")
  /\ E.low = HexEnc(E.s, TRUE) /\ E.up = HexEnc(E.s, FALSE) /\ E.low2 = E.low
  /\ E.backok = (E.s # << >>) /\ E.back = E.s
THexD == /\ Is("HexDecode")
  /\ E.ok1 = HexOk(E.s) /\ E.ok2 = HexOk(E.s) /\ E.ok3 = (HexOk(E.s) /\ Len(E.s) \div 2 = E.n)
  /\ (Len(E.s) % 2 = 0 => E.out1 = HexDec(E.s) /\ E.out2 = HexDec(E.s))
  /\ LET d == IF Len(E.s) % 2 = 0 THEN HexDec(E.s) ELSE << >>
     IN IF Len(E.s) \div 2 # E.n THEN E.out3 = Rep(170, E.n)
        ELSE \A i \in 1..E.n : E.out3[i] = (IF i <= Len(d) THEN d[i] ELSE 170)
TStr1 == /\ Is("Str1")
  /\ E.lower = LowerS(E.s) /\ E.upper = UpperS(E.s) /\ E.cap = CapS(E.s)
  /\ E.lower16 = LowerS(E.s16) /\ E.upper16 = UpperS(E.s16) /\ E.cap16 = CapS(E.s16)
  /\ LET h == StartsWith(E.s, Ox)
     IN /\ E.has0x = h /\ E.no0x = (IF h THEN From(E.s, 3) ELSE E.s)
        /\ E.add0x = << IF h THEN E.s ELSE Ox \o E.s, IF h THEN E.s ELSE Ox \o E.s, IF h THEN E.s ELSE Ox \o E.s >>
        /\ E.lead = (IF h THEN Ox \o Rep(48, E.n - (Len(E.s) - 2)) \o From(E.s, 3) ELSE Rep(48, E.n - Len(E.s)) \o E.s)
TStr2 == /\ Is("Str2")
  /\ LET a == E.a
         b == E.b
         la == LowerS(a)
         lb == LowerS(b)
     IN /\ E.sw = << StartsWith(a, b), StartsWith(la, lb) >> /\ E.ew = << EndsWith(a, b), EndsWith(la, lb) >>
        /\ E.cp = << IF StartsWith(a, b) THEN From(a, Len(b) + 1) ELSE a, IF StartsWith(la, lb) THEN From(a, Len(b) + 1) ELSE a >>
        /\ E.cs = << IF EndsWith(a, b) THEN Sub(a, 1, Len(a) - Len(b)) ELSE a, IF EndsWith(la, lb) THEN Sub(a, 1, Len(a) - Len(b)) ELSE a >>
        /\ E.con = << StartsWith(a, b), StartsWith(la, lb), EndsWith(a, b), EndsWith(la, lb) >>
        /\ E.cmp = CmpCI(a, b) /\ E.eqi = (la = lb)
Dec(x) == DecOf(x)
D1(xs) == List([i \in 1..Len(xs) |-> DecOf(xs[i])])
D2(xs) == List([i \in 1..Len(xs) |-> D1(xs[i])])
D3(xs) == List([i \in 1..Len(xs) |-> D2(xs[i])])
Q(s) == << 34 >> \o s \o << 34 >>
Some1(s) == << 83, 111, 109, 101, 40 >> \o s \o << 41 >>
None1 == << 78, 111, 110, 101 >>
TCont == /\ Is("Cont")
  /\ E.c1 = D1(E.x[1][1]) /\ E.c2 = D2(E.x[1]) /\ E.c3 = D3(E.x) /\ E.c4 = List(<< D3(E.x), D3(E.x) >>)
  /\ E.some = Some1(DecOf(E.y)) /\ E.none = None1
  /\ E.r1 = D1(E.x[1][1]) /\ E.r2 = D2(E.x[1]) /\ E.rs = Q(E.s)
  /\ E.ro = << Some1(Q(E.s)), None1 >>
  /\ E.rm = << 123 >> \o Join([i \in 1..Len(E.ks) |-> DecOf(E.ks[i]) \o << 58, 32 >> \o Q(E.s)], << 44, 32 >>) \o << 125 >>
  /\ E.rst = << 78, 32, 123, 32, 97, 58, 32 >> \o DecOf(E.y) \o << 44, 32, 98, 58, 32 >> \o Q(E.s) \o << 32, 125 >>
  /\ E.rt = << 84, 40 >> \o DecOf(E.y) \o << 44, 32 >> \o Q(E.s) \o << 41 >>
\* big integers and field elements from text
TBig == /\ Is("Big")
  /\ LET neg == E.s # << >> /\ E.s[1] = 45
         u == IF neg THEN Tail(E.s) ELSE E.s
         r == IF E.base = 16 /\ StartsWith(u, Ox) THEN From(u, 3) ELSE u
         good == IF E.base = 10 THEN Digits10(r) ELSE Digits16(r)
         v == NumVal(r, E.base)
     IN /\ E.ok = (good /\ BLess(v, E.lim) /\ (neg => v = << >>))
        /\ (E.ok => E.v = v /\ IsDec(E.dec, Z(FALSE, v)) /\ StartsWith(E.hex, Ox) /\ IsHexLower(From(E.hex, 3), v))
Next == TNum \/ TParse \/ TFloat \/ THexB \/ THexD \/ TStr1 \/ TStr2 \/ TCont \/ TBig \/ (TDone /\ UNCHANGED tvars)
=============================================================================
