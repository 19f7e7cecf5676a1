------------------------------ MODULE Arguments ------------------------------
(* The arguments a prover builds over the usable rows 1..u of its columns:     *)
(* sorted lookups with a running product, shuffles, lookups with multiplicities*)
(* and a running sum, and the product chain of the copy constraints.           *)
EXTENDS Circuit, SequencesExt
Occurs(s, u, v) == Cardinality({ i \in 1..u : s[i] = v })
SameBag(s, w, u) == \A i \in 1..u : Occurs(s, u, s[i]) = Occurs(w, u, s[i])
Within(a, s, u) == \A i \in 1..u : \E j \in 1..u : s[j] = a[i]
\* a2, s2 rearrange a, s so that every input meets its table value or repeats its predecessor
Arranged(a, s, a2, s2, u) ==
  /\ SameBag(a, a2, u) /\ SameBag(s, s2, u)
  /\ \A i \in 1..u : a2[i] = s2[i] \/ (i > 1 /\ a2[i] = a2[i - 1])
\* z starts at z0 and takes, row by row, the factor num/den
Runs(z, z0, u, num(_), den(_)) == z[1] = z0 /\ \A i \in 1..u : FMul(z[i + 1], den(i)) = FMul(z[i], num(i))
\* how often the inputs (several columns) have value v
Asks(ins, u, v) == FoldLeft(LAMBDA acc, s : acc + Occurs(s, u, v), 0, ins)
RECURSIVE SumAt(_, _, _)
SumAt(m, s, R) == IF R = {} THEN Zero ELSE LET j == CHOOSE x \in R : TRUE IN FAdd(m[j], SumAt(m, s, R \ {j}))
\* the multiplicities of equal table rows together count the inputs of that value
Counts(m, ins, s, u) ==
  /\ \A i \in 1..u : SumAt(m, s, { j \in 1..u : s[j] = s[i] }) = BMod(BFromInt(Asks(ins, u, s[i])), p)
  /\ \A i \in u + 1..Len(m) : m[i] = Zero
\* the step of the running sum in row i, over the common denominator
ProdAll(xs) == FoldLeft(FMul, One, xs)
Denoms(ins, s, i, beta) == << FAdd(s[i], beta) >> \o [k \in 1..Len(ins) |-> FAdd(ins[k][i], beta)]
Others(d, k) == ProdAll([j \in 1..Len(d) |-> IF j = k THEN One ELSE d[j]])
StepNum(m, ins, s, i, beta) ==
  LET d == Denoms(ins, s, i, beta)
  IN FSub(FoldLeft(FAdd, Zero, [k \in 1..Len(ins) |-> Others(d, k + 1)]), FMul(m[i], Others(d, 1)))
SumStep(f, m, ins, s, i, beta) == FMul(FSub(f[i + 1], f[i]), ProdAll(Denoms(ins, s, i, beta))) = StepNum(m, ins, s, i, beta)
RunsSum(f, m, ins, s, u, beta) ==
  /\ f[1] = Zero /\ \A i \in 1..u - 1 : SumStep(f, m, ins, s, i, beta)
  /\ ((f[u + 1] = Zero /\ SumStep(f, m, ins, s, u, beta)) <=> \A k \in 1..Len(ins) : Within(ins[k], s, u))
=============================================================================
