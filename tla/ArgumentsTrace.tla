---------------------------- MODULE ArgumentsTrace ----------------------------
(* Recorded provers of lookups, shuffles and copy constraints.                 *)
EXTENDS Arguments, TraceBase
VARIABLES tab, n, u
Init == TInit /\ p = << 3 >> /\ r = << >> /\ tab = [f |-> << >>, a |-> << >>, i |-> << >>, h |-> << >>] /\ n = 1 /\ u = 1
Same == UNCHANGED << p, r, tab, n, u >>
TTable == /\ Is("Table") /\ p' = E.p /\ r' = r /\ n' = E.n /\ u' = E.u
          /\ tab' = TLCEval([f |-> E.f, a |-> E.a, i |-> E.i, h |-> E.h])
Packed(es, theta, c) == Len(c) = n /\ \A j \in 1..n : c[j] = Fold([x \in 1..Len(es) |-> Val(es[x], tab, j - 1, 1, n)], theta, Zero)
TPermute == /\ Is("Permute") /\ Same
            /\ E.ok = Within(E.a, E.s, u)
            /\ (E.ok => Len(E.a2) = n /\ Len(E.s2) = n /\ Arranged(E.a, E.s, E.a2, E.s2, u))
THalo2 == /\ Is("Halo2") /\ Same
          /\ Packed(E.ins, E.theta, E.a) /\ Packed(E.tabs, E.theta, E.s)
          /\ E.ok = Within(E.a, E.s, u)
          /\ (E.ok =>
               /\ Arranged(E.a, E.s, E.a2, E.s2, u)
               /\ Runs(E.z, One, u, LAMBDA i : FMul(FAdd(E.a[i], E.beta), FAdd(E.s[i], E.gamma)), LAMBDA i : FMul(FAdd(E.a2[i], E.beta), FAdd(E.s2[i], E.gamma)))
               /\ E.z[u + 1] = One)
TShuffle == /\ Is("Shuffle") /\ Same
            /\ Packed(E.ins, E.theta, E.a) /\ Packed(E.tabs, E.theta, E.s)
            /\ Runs(E.z, One, u, LAMBDA i : FAdd(E.a[i], E.gamma), LAMBDA i : FAdd(E.s[i], E.gamma))
            /\ ((E.z[u + 1] = One) <=> SameBag(E.a, E.s, u))
TLogD == /\ Is("LogD") /\ Same
         /\ Packed(E.tabs, E.theta, E.s) /\ Len(E.cols) = Len(E.ins) /\ \A k \in 1..Len(E.ins) : Packed(E.ins[k], E.theta, E.cols[k])
         /\ Counts(E.m, E.cols, E.s, u) /\ RunsSum(E.f, E.m, E.cols, E.s, u, E.beta)
Column(c) == IF c[1] = "f" THEN tab.f[c[2]] ELSE IF c[1] = "a" THEN tab.a[c[2]] ELSE tab.i[c[2]]
TCopies ==
  /\ Is("Copies") /\ Same
  /\ LET k == Len(E.perm)
         chunks == (k + E.chunk - 1) \div E.chunk
         of(c) == { x \in 1..k : (x - 1) \div E.chunk = c - 1 }
         Term(x, i, lab) == FAdd(FAdd(Column(E.perm[x])[i], FMul(E.beta, lab[x][i])), E.gamma)
         Prod(c, i, lab) == FoldLeft(LAMBDA acc, x : FMul(acc, Term(x, i, lab)), One, [j \in 1..Cardinality(of(c)) |-> (c - 1) * E.chunk + j])
     IN /\ Len(E.zs) = chunks
        /\ \A c \in 1..chunks : Runs(E.zs[c], IF c = 1 THEN One ELSE E.zs[c - 1][u + 1], u, LAMBDA i : Prod(c, i, E.un), LAMBDA i : Prod(c, i, E.ps))
        /\ (k > 0 => ((E.zs[chunks][u + 1] = One) <=> \A j \in 1..Len(E.copies) : LET q == E.copies[j] IN Column(E.perm[q[1]])[q[2]] = Column(E.perm[q[3]])[q[4]]))
Next == TTable \/ TPermute \/ THalo2 \/ TShuffle \/ TLogD \/ TCopies \/ (TDone /\ UNCHANGED tvars /\ Same)
=============================================================================
