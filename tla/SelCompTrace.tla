----------------------------- MODULE SelCompTrace -----------------------------
(* Recorded compressions of selectors, alone and inside constraint systems.    *)
EXTENDS SelComp, TraceBase
Init == TInit /\ p = << 3 >> /\ r = << >>
Same == UNCHANGED << p, r >>
TField == Is("Field") /\ p' = E.p /\ r' = r
TProcess == Is("Process") /\ Same /\ Compressed(E.acts, E.degs, E.max, E.n, E.combos, E.asg)
TMatrix == /\ Is("Matrix") /\ Same
           /\ \A j \in 1..Len(E.pairs) : LET q == E.pairs[j] IN
                /\ q.ex = Clash(E.acts, q.a, q.b, E.n) /\ q.orth = ~q.ex
TInside ==
  /\ Is("Inside") /\ Same
  /\ LET T == [E.tab EXCEPT !.s = E.acts]
         T2 == [E.tab EXCEPT !.f = E.tab.f \o E.combos]
     IN /\ E.nf2 = E.nf + Len(E.combos) /\ \A j \in 1..Len(E.combos) : Len(E.combos[j]) = E.n
        /\ E.deg2 <= E.deg
        \* the new columns are asked for in the current row
        /\ SubSeq(E.fq2, 1, Len(E.fq)) = E.fq
        /\ SubSeq(E.fq2, Len(E.fq) + 1, Len(E.fq2)) = [j \in 1..Len(E.combos) |-> << E.nf + j, 0 >>]
        \* the column recorded for a selector is the one that switches with it
        /\ Len(E.map) = Len(E.acts)
        /\ \A s \in 1..Len(E.acts) : E.map[s] \in E.nf + 1..E.nf2 /\ \A i \in 1..E.n : E.acts[s][i] => E.combos[E.map[s] - E.nf][i] # Zero
        /\ Len(E.gates2) = Len(E.gates) /\ Len(E.lookups2) = Len(E.lookups) /\ Len(E.shuffles2) = Len(E.shuffles)
        /\ \A j \in 1..Len(E.gates) : Len(E.gates[j]) = Len(E.gates2[j])
             /\ \A k \in 1..Len(E.gates[j]) : SameGate(E.gates[j][k], E.gates2[j][k], T, T2, E.n) /\ ~HasSelector(E.gates2[j][k])
        /\ \A j \in 1..Len(E.lookups) :
             /\ SameAll(E.lookups[j].tab, E.lookups2[j].tab, T, T2, E.n)
             /\ Len(E.lookups[j].ins) = Len(E.lookups2[j].ins)
             /\ \A k \in 1..Len(E.lookups[j].ins) : SameAll(E.lookups[j].ins[k], E.lookups2[j].ins[k], T, T2, E.n)
        /\ \A j \in 1..Len(E.shuffles) : SameAll(E.shuffles[j].tab, E.shuffles2[j].tab, T, T2, E.n) /\ SameAll(E.shuffles[j].ins, E.shuffles2[j].ins, T, T2, E.n)
Next == TField \/ TProcess \/ TMatrix \/ TInside \/ (TDone /\ UNCHANGED tvars /\ Same)
=============================================================================
