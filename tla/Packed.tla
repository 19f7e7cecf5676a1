-------------------------------- MODULE Packed --------------------------------
(* Vectors of Lanes elements of a field F (a prime field, or a tower over one). *)
(* Registers hold one vector each; every operation is the scalar one applied     *)
(* lane by lane, each lane's answer a function of that lane's operands alone.    *)
EXTENDS Tower
NReg == 6
Lanes == 8
VARIABLES F, r
pkvars == << F, r >>
Lane(f(_)) == [i \in 1..Lanes |-> f(i)]
PkZero(f) == [i \in 1..Lanes |-> TwZero(f)]
PkAll(c) == [i \in 1..Lanes |-> c]
PkOk(v) == DOMAIN v = 1..Lanes /\ \A i \in 1..Lanes : TwIn(F, v[i])
PkAdd(x, y) == [i \in 1..Lanes |-> TwAdd(F, x[i], y[i])]
PkSub(x, y) == [i \in 1..Lanes |-> TwSub(F, x[i], y[i])]
PkMul(x, y) == [i \in 1..Lanes |-> TwMul(F, x[i], y[i])]
PkNeg(x) == [i \in 1..Lanes |-> TwNeg(F, x[i])]
PkPow(x, e) == [i \in 1..Lanes |-> TwPow(F, x[i], e)]
\* zero lanes have no inverse; they stay zero and disturb no other lane
PkInv(x) == [i \in 1..Lanes |-> IF x[i] = TwZero(F) THEN TwZero(F) ELSE TwInv(F, x[i])]
PkDiv(x, y) == PkMul(x, PkInv(y))
RECURSIVE PkSum(_)
PkSum(s) == IF s = << >> THEN PkZero(F) ELSE PkAdd(PkSum(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
\* lane i of entry j holds b^(Lanes * (j - 1) + i - 1)
RECURSIVE PkPows(_, _)
PkPows(b, k) == IF k = 0 THEN << >>
                ELSE IF k = 1 THEN << TwOne(F) >>
                ELSE LET s == PkPows(b, k - 1) IN Append(s, TwMul(F, s[k - 1], b))
RECURSIVE PkLessFrom(_, _, _)
PkLessFrom(x, y, i) == IF i > Lanes THEN FALSE
                       ELSE IF x[i] = y[i] THEN PkLessFrom(x, y, i + 1) ELSE TwLess(F, x[i], y[i])
PkLess(x, y) == PkLessFrom(x, y, 1)
PkCanonical == \A k \in DOMAIN r : PkOk(r[k])
=============================================================================
