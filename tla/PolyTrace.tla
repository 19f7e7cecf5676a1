------------------------------- MODULE PolyTrace -------------------------------
(* Histories of a register machine over the polynomial ring F[X]: registers 1-4 *)
(* are dense, 5-8 sparse.  A dense result is its whole coefficient list, which  *)
(* must end in a non-zero coefficient; a sparse one its list of terms, which    *)
(* must be exactly the non-zero terms in increasing degree.                     *)
EXTENDS Poly, TraceBase
VARIABLES F, r
Init == TInit /\ F = << <<2>>, << >> >> /\ r = [i \in 1..8 |-> << >>]
A == r[E.a]
B == r[E.b]
Pure == UNCHANGED << F, r >>
Rep(k, p) == IF k <= 4 THEN p ELSE PoTerms(F, p)
Res(p) == E.v = Rep(E.d, p) /\ r' = [r EXCEPT ![E.d] = p] /\ UNCHANGED F
\* the polynomial a list of terms denotes
RECURSIVE FromTerms(_, _)
FromTerms(s, i) == IF i > Len(s) THEN << >>
                   ELSE PoAdd(F, [j \in 1..(s[i][1] + 1) |-> IF j = s[i][1] + 1 THEN s[i][2] ELSE TwZero(F)], FromTerms(s, i + 1))
TField == Is("Field") /\ F' = << E.p, E.ext >> /\ r' = [i \in 1..8 |-> << >>]
TSet == Is("Set") /\ Res(PoTrim(F, E.raw))
TSetS == Is("SetS") /\ Res(FromTerms(E.v, 1))
TAdd == Is("Add") /\ Res(PoAdd(F, A, B))
TSub == Is("Sub") /\ Res(PoSub(F, A, B))
TMul == Is("Mul") /\ Res(PoMul(F, A, B))
TDiv == Is("Div")
        /\ IF B = << >> THEN ~E.ok /\ ~E.rok /\ Pure
           ELSE LET q == PoDivMod(F, A, B)
                IN /\ E.ok /\ E.q = q[1]
                   /\ (A # << >> => E.rok)
                   /\ (E.rok => E.r = q[2])
                   /\ r' = [r EXCEPT ![E.d] = q[1]] /\ UNCHANGED F
TZeroMod == Is("ZeroMod") /\ E.r = << >> /\ Pure
TNeg == Is("Neg") /\ Res(PoNeg(F, A))
TScale == Is("Scale") /\ Res(PoScale(F, A, E.x))
TScaleInv == Is("ScaleInv") /\ IF E.x = TwZero(F) THEN E.v = "none" /\ Pure ELSE Res(PoScale(F, A, TwInv(F, E.x)))
TEval == Is("Eval") /\ E.v = PoEval(F, A, E.x) /\ Pure
TFold == Is("Fold") /\ Res(PoFold(F, A, E.x))
TSame == Is("Same") /\ Res(A)
TLook == Is("Look") /\ E.deg = PoDegree(A) /\ E.z = (A = << >>) /\ E.one = (A = << TwOne(F) >>)
         /\ E.lead = (IF A = << >> THEN TwZero(F) ELSE A[Len(A)])
         /\ E.at = PoCo(F, A, E.i + 1) /\ E.ix = E.at
         /\ E.n = (IF E.a <= 4 THEN Len(A) ELSE Len(PoTerms(F, A))) /\ Pure
TCmp == Is("Cmp") /\ E.eq = E.same /\ E.ne = ~E.same /\ (E.same => E.hash) /\ E.hashds /\ Pure
TRoots == Is("Roots") /\ Res(PoRoots(F, E.x))
TVanish == Is("Vanish") /\ E.v = PoEval(F, PoRoots(F, E.x), E.p) /\ E.vs = E.v /\ Pure
\* the only polynomial of that length through the points
TLagrange == Is("Lagrange") /\ UNCHANGED F
             /\ IF Len(E.x) # Len(E.y) THEN ~E.ok /\ r' = [r EXCEPT ![E.d] = << >>]
                ELSE /\ E.ok /\ E.v = PoTrim(F, E.v) /\ Len(E.v) <= Len(E.x)
                     /\ \A i \in 1..Len(E.x) : PoEval(F, E.v, E.x[i]) = E.y[i]
                     /\ r' = [r EXCEPT ![E.d] = E.v]
Done == TDone /\ UNCHANGED << t, l, F, r >>
Next == \/ TField \/ TSet \/ TSetS \/ TAdd \/ TSub \/ TMul \/ TDiv \/ TZeroMod \/ TNeg \/ TScale \/ TScaleInv
        \/ TEval \/ TFold \/ TSame \/ TLook \/ TCmp \/ TRoots \/ TVanish \/ TLagrange \/ Done
=============================================================================
