------------------------------- MODULE SelComp -------------------------------
(* Selectors combined into fixed columns, and the expressions standing for    *)
(* them.                                                                       *)
EXTENDS Circuit, SequencesExt
\* a table holding nothing but the combined columns
OnlyFixed(cols) == [f |-> cols, a |-> << >>, i |-> << >>, h |-> << >>, s |-> << >>]
Enabled(acts, s, i) == acts[s][i + 1]
\* every selector is assigned once, to a column of its own unless it joins others in gates
Assigned(acts, asg) == Len(asg) = Len(acts) /\ { asg[j].s : j \in 1..Len(asg) } = 1..Len(acts)
\* the replacement is zero where the selector is off, non-zero where it is on
Stands(e, T, acts, s, n) == \A i \in 0..n - 1 : (Val(e, T, i, 1, n) # Zero) = Enabled(acts, s, i)
Exactly(e, T, acts, s, n) == \A i \in 0..n - 1 : Val(e, T, i, 1, n) = (IF Enabled(acts, s, i) THEN One ELSE Zero)
Clash(acts, s, u, n) == \E i \in 0..n - 1 : Enabled(acts, s, i) /\ Enabled(acts, u, i)
Within(e, d, max) == IF d = 0 THEN Deg(e) = 1 ELSE Deg(e) + d - 1 <= max
Compressed(acts, degs, max, n, combos, asg) ==
  LET T == OnlyFixed(combos) IN
  /\ Assigned(acts, asg)
  /\ \A j \in 1..Len(combos) : Len(combos[j]) = n
  /\ { asg[j].c : j \in 1..Len(asg) } = 1..Len(combos)
  /\ \A j \in 1..Len(asg) :
       /\ Stands(asg[j].e, T, acts, asg[j].s, n) /\ Within(asg[j].e, degs[asg[j].s], max)
       /\ (degs[asg[j].s] = 0 => Exactly(asg[j].e, T, acts, asg[j].s, n))
       /\ \A k \in 1..Len(asg) : (j # k /\ asg[j].c = asg[k].c) =>
            ~Clash(acts, asg[j].s, asg[k].s, n) /\ degs[asg[j].s] # 0 /\ degs[asg[k].s] # 0
\* a gate with a selector constrains the rows it did, and one without keeps its value
SameGate(pre, post, T, T2, n) ==
  \A i \in 0..n - 1 : LET x == Val(pre, T, i, 1, n) y == Val(post, T2, i, 1, n)
                      IN IF Simples(pre) = << >> THEN x = y ELSE (x = Zero) = (y = Zero)
SameValue(pre, post, T, T2, n) == \A i \in 0..n - 1 : Val(pre, T, i, 1, n) = Val(post, T2, i, 1, n)
SameAll(pre, post, T, T2, n) == Len(pre) = Len(post) /\ \A j \in 1..Len(pre) : SameValue(pre[j], post[j], T, T2, n) /\ ~HasSelector(post[j])
=============================================================================
