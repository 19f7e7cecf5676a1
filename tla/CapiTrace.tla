----------------------------- MODULE CapiTrace -----------------------------
(* Recorded calls of the exported C functions and of their C++ wrappers.     *)
(* Field elements and points are values; everything else is an object behind  *)
(* a handle: objs maps the handles handed out to what the objects hold, and   *)
(* every call must leave all other objects as they were.                      *)
EXTENDS Ec, Poly, TraceBase, FiniteSets
LOCAL INSTANCE TLC
VARIABLES F, ab, objs
cvars == << F, ab, objs >>
NoObj == [x0 \in {} |-> 0]
CInit == TInit /\ F = << <<7>>, << >> >> /\ ab = << << >>, <<5>> >> /\ objs = NoObj
Pure == UNCHANGED cvars
\* ---- field elements
TField == Is("Field") /\ F' = << E.p, E.ext >> /\ UNCHANGED << ab, objs >>
TConst == /\ Is("Const") /\ Pure
          /\ E.zero = TwZero(F) /\ E.one = TwOne(F) /\ E.minus = TwNeg(F, TwOne(F)) /\ TwIn(F, E.random)
TUn == /\ Is("Un") /\ Pure /\ TwIn(F, E.v)
       /\ CASE E.how = "neg" -> E.v = TwNeg(F, E.a)
            [] E.how = "dbl" -> E.v = TwAdd(F, E.a, E.a)
            [] E.how = "sqr" -> E.v = TwMul(F, E.a, E.a)
            [] E.how = "inv" -> TwMul(F, E.v, E.a) = TwOne(F)
TBi == /\ Is("Bi") /\ Pure /\ TwIn(F, E.v)
       /\ CASE E.how = "add" -> E.v = TwAdd(F, E.a, E.b)
            [] E.how = "sub" -> E.v = TwSub(F, E.a, E.b)
            [] E.how = "mul" -> E.v = TwMul(F, E.a, E.b)
            [] E.how = "div" -> TwMul(F, E.v, E.b) = E.a
TCmp == /\ Is("Cmp") /\ Pure /\ E.kept
        /\ LET same == (E.a = E.b)
               less == TwLess(F, E.a, E.b)
           IN E.eq = same /\ E.ne = ~same /\ E.lt = less /\ E.le = (less \/ same) /\ E.gt = ~(less \/ same) /\ E.ge = ~less
\* ---- points
De(x0) == Den(F, x0.k, x0.c)
Proper(x0) == WellFormed(F, x0.k, x0.c) /\ \A i \in DOMAIN x0.c : TwIn(F, x0.c[i])
TCurve == /\ Is("Curve") /\ F' = << E.p, E.ext >> /\ ab' = << E.ca, E.cb, << E.gx, E.gy >> >> /\ UNCHANGED objs
          /\ OnCurve(F', E.ca, E.cb, << E.gx, E.gy >>)
TPConst == /\ Is("PConst") /\ Pure
           /\ De(E.zero) = O /\ De(E.gen) = ab[3] /\ Proper(E.random) /\ OnCurve(F, ab[1], ab[2], De(E.random))
TPt == /\ Is("Pt") /\ Pure /\ Proper(E.v)
       /\ LET x == TLCEval(De(E.a))
              y == TLCEval(De(E.b))
              want == CASE E.how = "add" -> EcAdd(F, ab[1], x, y)
                        [] E.how = "sub" -> EcSub(F, ab[1], x, y)
                        [] E.how = "neg" -> EcNeg(F, x)
                        [] E.how = "dbl" -> EcAdd(F, ab[1], x, x)
          IN De(E.v) = want /\ E.eq = (x = y) /\ E.ne = (x # y)
TMsm == /\ Is("Msm") /\ Pure /\ Proper(E.v)
        /\ De(E.v) = EcMsm(F, ab[1], [i \in DOMAIN E.x |-> De(E.x[i])], E.ks)
\* ---- objects: o.k kind, o.v what it holds (domains << size, generator >>)
Holds(k0, v0) == [k |-> k0, v |-> v0]
Frd == F
Norm(o0, v0) == IF o0.k = "p" THEN PoTrim(Frd, v0) ELSE v0
\* what the driver sees of every object afterwards
Seen(m0) == /\ Len(E.all) = Cardinality(DOMAIN m0)
            /\ \A i \in DOMAIN E.all : E.all[i][1] \in DOMAIN m0 /\ Norm(m0[E.all[i][1]], E.all[i][2]) = m0[E.all[i][1]].v
Got(at) == LET i == CHOOSE i \in DOMAIN E.all : E.all[i][1] = at IN E.all[i][2]
With(at, o0) == TLCEval([x0 \in DOMAIN objs \cup {at} |-> IF x0 = at THEN o0 ELSE objs[x0]])
Without(m0, at) == TLCEval([x0 \in DOMAIN m0 \ {at} |-> m0[x0]])
New(at, o0) == at \notin DOMAIN objs /\ objs' = With(at, o0) /\ Seen(With(at, o0)) /\ UNCHANGED << F, ab >>
NZeros(n0, z0) == [i \in 1..n0 |-> z0]
\* the smallest power of two that holds the coefficients, and a generator of the group of that order
Pow2(n0) == CHOOSE s \in {1, 2, 4, 8, 16} : s >= n0 /\ \A u \in {1, 2, 4, 8, 16} : u >= n0 => s <= u
TDomain == /\ Is("Domain")
           /\ LET v == Got(E.at)
              IN /\ v[1] = Pow2(E.want)
                 /\ (IF v[1] = 1 THEN v[2] = TwOne(Frd) ELSE TwPow(Frd, v[2], BFromInt(v[1] \div 2)) = TwNeg(Frd, TwOne(Frd)))
                 /\ New(E.at, Holds("d", v))
One2 == << << >>, << 1 >> >>
TEmpty == /\ Is("Empty")
          /\ LET n == objs[E.dom].v[1]
             IN New(E.at, Holds(E.kind, CASE E.kind = "p" -> << >> [] E.kind = "e" -> NZeros(n, << >>) [] E.kind = "r" -> NZeros(n, One2)))
TCreate == /\ Is("Create") /\ New(E.at, Holds(E.kind, << >>))
TLen == Is("Len") /\ Pure /\ E.n = Len(objs[E.x].v)
TSet == /\ Is("Set") /\ UNCHANGED << F, ab >>
        /\ objs' = [objs EXCEPT ![E.x] = Holds(E.kind, TLCEval([@.v EXCEPT ![E.i + 1] = IF E.kind = "e" THEN E.a ELSE << E.a, E.b >>]))]
TSee == Is("See") /\ Pure /\ Seen(objs)
TClone == Is("Clone") /\ New(E.at, objs[E.x])
\* the source of an in-place transformation is given up
Trans(o0) == LET m == Without(With(E.at, o0), IF E.gone THEN E.x ELSE 0)
             IN E.at \notin DOMAIN objs /\ objs' = m /\ Seen(m) /\ UNCHANGED << F, ab >>
At(a, g0, i) == PoEval(Frd, a, TwPow(Frd, g0, BFromInt(i - 1)))
TFft == /\ Is("Fft")
        /\ LET d == objs[E.dom].v
               a == objs[E.x].v
               want == TLCEval([i \in 1..d[1] |-> At(a, d[2], i)])
           \* the zero polynomial has the empty and the all-zero evaluation form
           IN Trans(Holds("e", IF a = << >> /\ Got(E.at) = << >> THEN << >> ELSE want))
\* the polynomial below the domain's size with these values; values that are missing count as zero
TIfft == /\ Is("Ifft")
         /\ LET d == objs[E.dom].v
                a == objs[E.x].v
                got == TLCEval(PoTrim(Frd, Got(E.at)))
            IN /\ Len(got) <= d[1]
               /\ \A i \in 1..d[1] : At(got, d[2], i) = (IF i <= Len(a) THEN a[i] ELSE << >>)
               /\ Trans(Holds("p", got))
Quot(v0, r0) == TwMul(Frd, v0, r0[2]) = r0[1] /\ TwIn(Frd, v0)
TEval == Is("Eval") /\ Pure /\ Quot(E.v, objs[E.x].v[E.i + 1])
TBatchEval == /\ Is("BatchEval")
              /\ LET v == Got(E.at)
                     a == objs[E.x].v
                 IN Len(v) = Len(a) /\ (\A i \in DOMAIN a : Quot(v[i], a[i])) /\ New(E.at, Holds("e", v))
TMat == /\ Is("Mat")
        /\ New(E.at, Holds("m", TLCEval([i \in 1..E.rows |-> SubSeq(E.v, (i - 1) * E.cols + 1, i * E.cols)])))
TMatSet == /\ Is("MatSet") /\ UNCHANGED << F, ab >>
           /\ LET m == TLCEval([objs EXCEPT ![E.x] = Holds("m", TLCEval([@.v EXCEPT ![E.r + 1] = TLCEval([@ EXCEPT ![E.c + 1] = E.v])]))])
              IN objs' = m /\ Seen(m)
TDestroy == /\ Is("Destroy") /\ UNCHANGED << F, ab >> /\ E.x \in DOMAIN objs
            /\ LET m == Without(objs, E.x) IN objs' = m /\ Seen(m)
\* everything destroyed: all that the library obtained it has given back, once
TOver == Is("Over") /\ Pure /\ objs = NoObj /\ E.blocks = 0
CNext == TField \/ TConst \/ TUn \/ TBi \/ TCmp \/ TCurve \/ TPConst \/ TPt \/ TMsm \/ TDomain \/ TEmpty \/ TCreate \/ TLen \/ TSet \/ TSee
         \/ TClone \/ TFft \/ TIfft \/ TEval \/ TBatchEval \/ TMat \/ TMatSet \/ TDestroy \/ TOver \/ (TDone /\ UNCHANGED tvars /\ UNCHANGED cvars)
=============================================================================
