------------------------------ MODULE MultiTrace ------------------------------
(* Histories of a register machine over multilinear polynomials, given by their *)
(* values on the hypercube (point i - 1 in binary, variable 0 the lowest bit; the *)
(* empty table is zero), and over sparse multivariate polynomials, functions    *)
(* from monomials (sets of << variable, exponent >>) to non-zero coefficients.   *)
EXTENDS Tower, TraceBase
VARIABLES F, m, p
Init == TInit /\ F = << <<2>>, << >> >> /\ m = [i \in 1..4 |-> << >>] /\ p = [i \in 1..4 |-> << >>]
Pure == UNCHANGED << F, m, p >>
Z == TwZero(F)
One == TwOne(F)
RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 0 ELSE 1 + Lg((n + 1) \div 2)
Pow2(n) == 2 ^ n
Bit(i, k) == (i \div Pow2(k)) % 2
\* the polynomial that is one at the corner i of the hypercube and zero at the others
RECURSIVE EqAt(_, _, _)
EqAt(i, x, k) == IF k > Len(x) THEN One
                 ELSE TwMul(F, IF Bit(i, k - 1) = 1 THEN x[k] ELSE TwSub(F, One, x[k]), EqAt(i, x, k + 1))
RECURSIVE SumTab(_, _, _, _)
SumTab(tab, from, x, i) == IF i >= Pow2(Len(x)) THEN Z
                           ELSE TwAdd(F, TwMul(F, tab[from + i + 1], EqAt(i, x, 1)), SumTab(tab, from, x, i + 1))
IsZeroTab(tab) == \A i \in 1..Len(tab) : tab[i] = Z
SameTab(a, b) == IF a = << >> THEN IsZeroTab(b) ELSE IF b = << >> THEN IsZeroTab(a) ELSE a = b
MEvalAt(tab, x) == IF tab = << >> THEN Z ELSE SumTab(tab, 0, x, 0)
MFixed(tab, x) == IF tab = << >> THEN << >>
                  ELSE [b \in 1..(Len(tab) \div Pow2(Len(x))) |-> SumTab(tab, (b - 1) * Pow2(Len(x)), x, 0)]
A == m[E.a]
B == m[E.b]
At(tab, i) == IF i <= Len(tab) THEN tab[i] ELSE Z
Wide(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
ResM(tab) == SameTab(E.v, tab) /\ m' = [m EXCEPT ![E.d] = E.v] /\ UNCHANGED << F, p >>
TField == Is("Field") /\ F' = << E.p, E.ext >> /\ m' = [i \in 1..4 |-> << >>] /\ p' = [i \in 1..4 |-> << >>]
TMSet == Is("MSet") /\ E.v = E.x /\ ResM(E.x)
TMOne == Is("MOne") /\ ResM([i \in 1..Pow2(E.x) |-> One])
TMAdd == Is("MAdd") /\ ResM([i \in 1..Wide(A, B) |-> TwAdd(F, At(A, i), At(B, i))])
TMSub == Is("MSub") /\ ResM([i \in 1..Wide(A, B) |-> TwSub(F, At(A, i), At(B, i))])
TMMul == Is("MMul") /\ ResM([i \in 1..Wide(A, B) |-> TwMul(F, At(A, i), At(B, i))])
TMNeg == Is("MNeg") /\ ResM([i \in 1..Len(A) |-> TwNeg(F, A[i])])
\* pointwise quotient; undefined if the divisor vanishes somewhere on the hypercube
TMDiv == Is("MDiv")
         /\ IF B = << >> THEN E.v = "none" /\ Pure
            ELSE IF A = << >> THEN ResM(<< >>)
            ELSE IF Len(A) # Len(B) \/ (\E i \in 1..Len(B) : B[i] = Z) THEN E.v = "none" /\ Pure
            ELSE ResM([i \in 1..Len(A) |-> TwMul(F, A[i], TwInv(F, B[i]))])
TMFix == Is("MFix") /\ ResM(MFixed(A, E.x))
TMEval == Is("MEval") /\ E.v = MEvalAt(A, E.x) /\ Pure
TMLook == Is("MLook") /\ E.deg = Lg(Len(A)) /\ E.z = IsZeroTab(A) /\ E.one = (A # << >> /\ \A i \in 1..Len(A) : A[i] = One)
          /\ E.at = At(A, E.i + 1) /\ E.eq = SameTab(A, B) /\ E.ne = ~E.eq /\ (E.eq => E.h) /\ Pure
-----------------------------------------------------------------------------
RECURSIVE Prod(_, _, _)
Prod(tabs, is, x) == IF is = << >> THEN One ELSE TwMul(F, MEvalAt(tabs[is[1]], x), Prod(tabs, Tail(is), x))
RECURSIVE Combo(_, _, _)
Combo(tabs, ts, x) == IF ts = << >> THEN Z ELSE TwAdd(F, TwMul(F, ts[1][1], Prod(tabs, ts[1][2], x)), Combo(tabs, Tail(ts), x))
RECURSIVE CornerSum(_, _, _, _)
CornerSum(tabs, ts, n, i) == IF i >= Pow2(n) THEN Z
  ELSE TwAdd(F, Combo(tabs, ts, [k \in 1..n |-> IF Bit(i, k - 1) = 1 THEN One ELSE Z]), CornerSum(tabs, ts, n, i + 1))
Used(ts) == UNION { { ts[i][2][j] : j \in 1..Len(ts[i][2]) } : i \in 1..Len(ts) }
RECURSIVE MaxLen(_)
MaxLen(ts) == IF ts = << >> THEN 0 ELSE LET r == MaxLen(Tail(ts)) IN IF Len(ts[1][2]) > r THEN Len(ts[1][2]) ELSE r
RECURSIVE SetSize(_)
SetSize(S) == IF S = {} THEN 0 ELSE 1 + SetSize(S \ { CHOOSE x \in S : TRUE })
TLC1 == Is("LC") /\ E.at = Combo(E.tabs, E.terms, E.x) /\ E.sum = CornerSum(E.tabs, E.terms, E.n, 0)
        /\ E.max = MaxLen(E.terms) /\ E.flat = SetSize(Used(E.terms)) /\ E.nv = E.n /\ Pure
-----------------------------------------------------------------------------
Mono(es) == { es[i] : i \in { j \in 1..Len(es) : es[j][2] # 0 } }
NonZero(f) == [x \in { y \in DOMAIN f : f[y] # Z } |-> f[x]]
Empty == [x \in {} |-> Z]
Co(f, x) == IF x \in DOMAIN f THEN f[x] ELSE Z
PlusM(f, g) == NonZero([x \in (DOMAIN f) \union (DOMAIN g) |-> TwAdd(F, Co(f, x), Co(g, x))])
NegM(f) == [x \in DOMAIN f |-> TwNeg(F, f[x])]
RECURSIVE FromTerms(_)
FromTerms(ts) == IF ts = << >> THEN Empty ELSE PlusM([x \in { Mono(ts[1][2]) } |-> ts[1][1]], FromTerms(Tail(ts)))
RECURSIVE DegOf(_)
DegOf(x) == IF x = {} THEN 0 ELSE LET e == CHOOSE e \in x : TRUE IN e[2] + DegOf(x \ {e})
TotalDeg(f) == LET ds == { DegOf(x) : x \in DOMAIN f } IN IF ds = {} THEN 0 ELSE CHOOSE d \in ds : \A e \in ds : e <= d
VarsOf(f) == UNION { { e[1] : e \in x } : x \in DOMAIN f }
\* like terms merged, vanishing terms dropped
ResP(f) == /\ Len(E.v) = SetSize(DOMAIN f)
           /\ \A i \in 1..Len(E.v) : Co(f, Mono(E.v[i][2])) = E.v[i][1]
           /\ \A i, j \in 1..Len(E.v) : i # j => Mono(E.v[i][2]) # Mono(E.v[j][2])
           /\ E.deg = TotalDeg(f) /\ (\A v \in VarsOf(f) : v < E.nv)
           /\ p' = [p EXCEPT ![E.d] = f] /\ UNCHANGED << F, m >>
TPSet == Is("PSet") /\ ResP(FromTerms(E.raw))
Reg(k) == IF p[k] = << >> THEN Empty ELSE p[k]
TPAdd == Is("PAdd") /\ ResP(PlusM(Reg(E.a), Reg(E.b)))
TPSub == Is("PSub") /\ ResP(PlusM(Reg(E.a), NegM(Reg(E.b))))
TPNeg == Is("PNeg") /\ ResP(NegM(Reg(E.a)))
RECURSIVE MonoAt(_, _)
MonoAt(x, pt) == IF x = {} THEN One ELSE LET e == CHOOSE e \in x : TRUE IN TwMul(F, TwPow(F, pt[e[1] + 1], BFromInt(e[2])), MonoAt(x \ {e}, pt))
RECURSIVE PSum(_, _, _)
PSum(f, S, pt) == IF S = {} THEN Z ELSE LET x == CHOOSE x \in S : TRUE IN TwAdd(F, TwMul(F, f[x], MonoAt(x, pt)), PSum(f, S \ {x}, pt))
TPEval == Is("PEval") /\ E.v = PSum(Reg(E.a), DOMAIN Reg(E.a), E.x) /\ Pure
TPLook == Is("PLook") /\ LET f == Reg(E.a) g == Reg(E.b) c == { x \in DOMAIN f : x # {} } IN
            /\ E.z = (DOMAIN f = {}) /\ E.one = (DOMAIN f = {{}} /\ f[{}] = One) /\ E.at = Co(f, Mono(E.lit)) /\ E.at2 = E.at
            /\ E.eq = (f = g) /\ E.ne = ~E.eq /\ E.const = (DOMAIN f = {{}})
          /\ Pure
Done == TDone /\ UNCHANGED << t, l, F, m, p >>
Next == \/ TField \/ TMSet \/ TMOne \/ TMAdd \/ TMSub \/ TMMul \/ TMNeg \/ TMDiv \/ TMFix \/ TMEval \/ TMLook \/ TLC1
        \/ TPSet \/ TPAdd \/ TPSub \/ TPNeg \/ TPEval \/ TPLook \/ Done
=============================================================================
