------------------------------ MODULE DomainTrace ------------------------------
(* Histories of evaluation domains.  A domain is << n, g, h >>: the coset h<g> of *)
(* a subgroup of order n, in the order h, hg, hg^2, ...                           *)
EXTENDS Poly, TraceBase
VARIABLES F, D
Init == TInit /\ F = << <<2>>, << >> >> /\ D = [i \in 1..4 |-> << >>]
Pure == UNCHANGED << F, D >>
Pw(x, n) == TwPow(F, x, BFromInt(n))
El(d, i) == TwMul(F, d[3], Pw(d[2], i))                       \* i >= 0
Els(d) == PoEvalsAt(F, << TwZero(F), TwOne(F) >>, d[3], d[2], d[1])
Pad(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE TwZero(F)]
AllZero(s) == \A i \in 1..Len(s) : s[i] = TwZero(F)
\* the zero polynomial has the empty and the all-zero evaluation form
SameE(v, w) == v = w \/ (AllZero(v) /\ AllZero(w) /\ (v = << >> \/ w = << >>))
Evals(d, a) == PoEvalsAt(F, a, d[3], d[2], d[1])
\* the coefficients of the polynomial with those values on the subgroup <g>
Idft(vs, g, n) == PoScale(F, PoEvalsAt(F, vs, TwOne(F), TwInv(F, g), n), TwInv(F, BFromInt(n)))
Prim(g, n) == Pw(g, n) = TwOne(F) /\ (n % 2 = 0 => Pw(g, n \div 2) # TwOne(F)) /\ (n % 3 = 0 => Pw(g, n \div 3) # TwOne(F))
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2((n + 1) \div 2)      \* ceiling
RECURSIVE MinPow(_, _)
MinPow(r, n) == IF r >= n THEN r ELSE MinPow(2 * r, n)
Size(kind, n) == IF kind = "radix2" THEN MinPow(1, n) ELSE IF MinPow(3, n) < MinPow(1, n) THEN MinPow(3, n) ELSE MinPow(1, n)
RECURSIVE TwoAd(_)
TwoAd(n) == IF n % 2 = 1 THEN 0 ELSE 1 + TwoAd(n \div 2)
RECURSIVE Rev(_, _)
Rev(i, k) == IF k = 0 THEN 0 ELSE (i % 2) * 2^(k - 1) + Rev(i \div 2, k - 1)
BitRev(s) == [i \in 1..Len(s) |-> s[Rev(i - 1, Log2(Len(s))) + 1]]
RECURSIVE ProdL(_, _)
ProdL(s, i) == IF i > Len(s) THEN TwOne(F) ELSE TwMul(F, s[i], ProdL(s, i + 1))
\* prod over j # i of (tau - x_j) / (x_i - x_j)
Lag(xs, i, tau) ==
  LET o == [j \in 1..Len(xs) |-> IF j = i THEN TwOne(F) ELSE TwSub(F, tau, xs[j])]
      u == [j \in 1..Len(xs) |-> IF j = i THEN TwOne(F) ELSE TwSub(F, xs[i], xs[j])]
  IN TwMul(F, ProdL(o, 1), TwInv(F, ProdL(u, 1)))
RECURSIVE SumF(_, _)
SumF(s, i) == IF i > Len(s) THEN TwZero(F) ELSE TwAdd(F, s[i], SumF(s, i + 1))
-----------------------------------------------------------------------------
TField == Is("Field") /\ F' = << E.p, E.ext >> /\ D' = [i \in 1..4 |-> << >>]
TCreate == /\ Is("Create")
           /\ E.size = Size(E.kind, E.n)
           /\ Prim(E.g, E.size) /\ TwMul(F, E.g, E.gi) = TwOne(F)
           /\ E.sf = BFromInt(E.size) /\ TwMul(F, E.si, E.sf) = TwOne(F)
           /\ E.log = TwoAd(E.size)
           /\ E.off = TwOne(F) /\ E.offi = TwOne(F) /\ E.offn = TwOne(F)
           /\ D' = [D EXCEPT ![E.d] = << E.size, E.g, TwOne(F) >>] /\ UNCHANGED F
TCoset == /\ Is("Coset")
          /\ E.size = D[E.a][1] /\ E.g = D[E.a][2] /\ E.off = E.x
          /\ TwMul(F, E.offi, E.x) = TwOne(F) /\ E.offn = Pw(E.x, E.size)
          /\ D' = [D EXCEPT ![E.d] = << E.size, E.g, E.x >>] /\ UNCHANGED F
A == D[E.a]
TFFT == Is("FFT") /\ SameE(E.v, Evals(A, E.p)) /\ (E.v = << >> => E.p = << >>) /\ Pure
TIFFT == Is("IFFT") /\ E.v = PoTrim(F, E.v) /\ Len(E.v) <= A[1] /\ Evals(A, E.v) = Pad(E.p, A[1]) /\ Pure
TLag == /\ Is("Lag") /\ Len(E.v) = E.to - E.from
        /\ LET xs == Els(A) IN \A i \in 1..Len(E.v) : E.v[i] = Lag(xs, E.from + i, E.tau)
        /\ Pure
TVan == /\ Is("Van") /\ E.terms = << << 0, TwNeg(F, Pw(A[3], A[1])) >>, << A[1], TwOne(F) >> >>
        /\ E.v = PoEval(F, PoRoots(F, Els(A)), E.tau) /\ Pure
Inside(xs, ys) == \A i \in 1..Len(ys) : \E j \in 1..Len(xs) : xs[j] = ys[i]
\* 1 on the sub-coset, 0 on the rest of the domain
TFilter == /\ Is("Filter")
           /\ LET xs == Els(A) ys == Els(D[E.b])
                  ind == [i \in 1..Len(xs) |-> IF \E j \in 1..Len(ys) : ys[j] = xs[i] THEN TwOne(F) ELSE TwZero(F)]
              IN /\ Inside(xs, ys)
                 /\ E.v = PoTrim(F, E.v) /\ Len(E.v) <= A[1] /\ Evals(A, E.v) = ind
                 /\ E.at = PoEval(F, E.v, E.tau)
           /\ Pure
TElem == Is("Elem") /\ E.v = (IF E.i >= 0 THEN El(A, E.i) ELSE TwMul(F, A[3], TwInv(F, Pw(A[2], -E.i)))) /\ Pure
TElems == Is("Elems") /\ E.v = Els(A) /\ Pure
TRoots == Is("Roots") /\ E.v = PoEvalsAt(F, << TwZero(F), TwOne(F) >>, TwOne(F), A[2], E.n) /\ Pure
TDistr == Is("Distr") /\ E.v = [i \in 1..Len(E.p) |-> TwMul(F, E.p[i], Pw(E.x, i - 1))] /\ Pure
TOut == Is("Out") /\ Pw(E.v, A[1]) # Pw(A[3], A[1]) /\ Pure
TRev == Is("Rev") /\ E.v = BitRev(E.p) /\ Pure
\* columns of a matrix
TBatch == /\ Is("Batch")
          /\ \A c \in 1..Len(E.p) :
               LET g == E.g n == Len(E.p[c]) IN
               CASE E.kind = "fft" -> E.v[c] = PoEvalsAt(F, E.p[c], TwOne(F), g, n)
                 [] E.kind = "ifft" -> E.v[c] = Pad(Idft(E.p[c], g, n), n)
                 [] E.kind = "lde" -> LET w == PoEvalsAt(F, Idft(E.p[c], g, n), E.x, E.g2, n * 2^E.bits)
                                      IN E.v[c] = (IF E.rev THEN w ELSE BitRev(w))
          /\ Len(E.v) = Len(E.p) /\ Pure
Z2(op(_, _), a, b) == [i \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) |-> op(PoCo(F, a, i), PoCo(F, b, i))]
Add2(x, y) == TwAdd(F, x, y)
Sub2(x, y) == TwSub(F, x, y)
Mul2(x, y) == TwMul(F, x, y)
TEvOp == /\ Is("EvOp")
         /\ CASE E.kind = "add" -> SameE(E.v, Z2(Add2, E.p, E.q))
              [] E.kind = "sub" -> SameE(E.v, Z2(Sub2, E.p, E.q))
              [] E.kind = "mul" -> SameE(E.v, Z2(Mul2, E.p, E.q))
              [] E.kind = "neg" -> SameE(E.v, [i \in 1..Len(E.p) |-> TwNeg(F, E.p[i])])
              [] E.kind = "scale" -> SameE(E.v, [i \in 1..Len(E.p) |-> TwMul(F, E.p[i], E.x)])
              [] E.kind = "div" -> IF E.q = << >> \/ (E.p # << >> /\ (Len(E.p) # Len(E.q) \/ \E i \in 1..Len(E.q) : E.q[i] = TwZero(F))) THEN ~E.ok
                               ELSE E.ok /\ SameE(Z2(Mul2, E.v, E.q), E.p)
              [] E.kind = "sdiv" -> IF E.x = TwZero(F) THEN ~E.ok ELSE E.ok /\ SameE([i \in 1..Len(E.v) |-> TwMul(F, E.v[i], E.x)], E.p)
              [] E.kind = "cmp" -> E.eq = SameE(E.p, E.q) /\ E.ne = ~E.eq /\ E.z = AllZero(E.p)
                                   /\ E.one = (E.p # << >> /\ \A i \in 1..Len(E.p) : E.p[i] = TwOne(F))
         /\ Pure
Done == TDone /\ UNCHANGED << t, l, F, D >>
Next == \/ TField \/ TCreate \/ TCoset \/ TFFT \/ TIFFT \/ TLag \/ TVan \/ TFilter \/ TElem \/ TElems \/ TRoots \/ TDistr
        \/ TOut \/ TRev \/ TBatch \/ TEvOp \/ Done
=============================================================================
