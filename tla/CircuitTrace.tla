----------------------------- MODULE CircuitTrace -----------------------------
(* Recorded evaluations of circuit expressions.                                *)
EXTENDS Circuit, TraceBase
VARIABLES tab, n
Init == TInit /\ p = << 3 >> /\ r = << >> /\ tab = [f |-> << >>, a |-> << >>, i |-> << >>, h |-> << >>] /\ n = 1
Same == UNCHANGED << p, r, tab, n >>
TTable == /\ Is("Table") /\ p' = E.p /\ r' = r /\ n' = E.n
          /\ tab' = TLCEval([f |-> E.f, a |-> E.a, i |-> E.i, h |-> E.h])
TExpr == /\ Is("Expr") /\ Same
         /\ E.deg = Deg(E.e) /\ E.contains = (Simples(E.e) # << >>)
         /\ E.copy = E.e
         /\ (Len(Simples(E.e)) <= 1 => E.simple = (IF Simples(E.e) = << >> THEN 0 ELSE Simples(E.e)[1]))
         /\ (Len(Simples(E.e)) > 1 => E.simple = -1)
TEval == /\ Is("Eval") /\ Same
         /\ \A j \in 1..Len(E.idx) :
              LET vs == [x \in 1..Len(E.es) |-> Val(E.es[x], tab, E.idx[j], E.k, n)]
              IN /\ E.prov[j] = vs /\ (E.k = 1 => E.ver[j] = vs)
                 /\ E.graph[j] = Fold(vs, E.y, E.prev)
TCompress == /\ Is("Compress") /\ Same
             /\ Len(E.res) = n
             /\ \A j \in 1..n : E.res[j] = Fold([x \in 1..Len(E.es) |-> Val(E.es[x], tab, j - 1, 1, n)], E.theta, Zero)
TReplace == /\ Is("Replace") /\ Same /\ ~HasSelector(E.out)
            /\ \A j \in 0..n - 1 : Val(E.out, tab, j, 1, n) = ValSub(E.e, E.reps, tab, j, 1, n)
\* expressions with one identifier have one value; the same tree, one identifier
TIdent == /\ Is("Ident") /\ Same
          /\ (E.same => \A j \in 0..n - 1 : Val(E.a, tab, j, 1, n) = Val(E.b, tab, j, 1, n))
          /\ (E.a = E.b => E.same) /\ E.eq = (E.a = E.b) /\ E.ne = ~E.eq
TRot == /\ Is("Rot") /\ Same
        /\ E.res = RowAt(E.idx, E.r, E.k, E.size)
TOmega == /\ Is("Omega") /\ Same
          /\ LET w == FPow(E.w, BFromInt(RowAt(0, E.r, 1, n))) IN E.res = FMul(E.x, w)
Next == TTable \/ TExpr \/ TEval \/ TCompress \/ TReplace \/ TIdent \/ TRot \/ TOmega \/ (TDone /\ UNCHANGED tvars /\ Same)
=============================================================================
