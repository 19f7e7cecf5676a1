------------------------------ MODULE MerkleTrace ------------------------------
(* Histories of Merkle commitments.  g: the permutation and the shape of the    *)
(* hasher, ms: what is committed, t: its tree of digests.                       *)
EXTENDS Transcript, TraceBase
VARIABLES g, ms, t2
Init == TInit /\ g = << >> /\ ms = << >> /\ t2 = << >>
HashNow(x) == PfHash(g[1], g[2].w, g[2].rate, g[2].out, x)
PairNow(a, b) == TruncPerm(g[1], g[2].w, g[2].out, << a, b >>)
ZeroNow == [i \in 1..g[2].out |-> << >>]
M == INSTANCE Mmcs WITH H <- HashNow, C <- PairNow, Zero <- ZeroNow
Pure == UNCHANGED << g, ms, t2 >>
TParams == Is("Params")
  /\ g' = << ShiftPerm(E), [w |-> E.w, rate |-> E.rate, out |-> E.out] >>
  /\ UNCHANGED << ms, t2 >>
\* several matrices
TCommit == Is("Commit") /\ ms' = E.ms /\ t2' = M!Layers(E.ms) /\ E.ok /\ E.root = M!Root(t2') /\ UNCHANGED g
TTree == Is("Tree") /\ E.layers = t2 /\ E.ms = ms /\ Pure
TOpen == Is("Open") /\ Pure /\ E.ok = M!Openable(ms, E.i) /\ (E.ok => E.vals = M!Vals(ms, E.i) /\ E.path = M!Path(t2, E.i))
TVerify == Is("Verify") /\ Pure
  /\ E.ok = (E.i < M!MaxH(ms, 1) /\ M!Openable(ms, E.i) /\ E.root = M!Root(t2) /\ E.vals = M!Vals(ms, E.i) /\ E.path = M!Path(t2, E.i))
\* a list of leaves in a binary tree; a step of a path is << on the left?, digest >>
One(ls) == << [i \in 1..Len(ls) |-> ls[i]] >>
RECURSIVE Pow2(_)
Pow2(n) == IF n = 1 THEN TRUE ELSE n > 0 /\ n % 2 = 0 /\ Pow2(n \div 2)
BPath(i) == [d \in 1..(Len(t2) - 1) |-> << ((i \div (2 ^ (d - 1))) % 2) = 1, M!Path(t2, i)[d] >>]
TBCommit == Is("BCommit") /\ UNCHANGED g /\ E.ok = (Pow2(Len(E.ls)) /\ Len(E.ls) <= E.max)
  /\ IF E.ok THEN ms' = One(E.ls) /\ t2' = M!Layers(One(E.ls)) /\ E.root = M!Root(t2') ELSE UNCHANGED << ms, t2 >>
TBOpen == Is("BOpen") /\ Pure /\ E.ok = (E.i < Len(ms[1])) /\ (E.ok => E.path = BPath(E.i))
TBVerify == Is("BVerify") /\ Pure
  /\ E.ok = (E.root = M!Root(t2) /\ \E i \in 1..Len(ms[1]) : E.leaf = t2[1][i] /\ E.path = BPath(i - 1))
Done == TDone /\ UNCHANGED << t, l, g, ms, t2 >>
Next == TParams \/ TCommit \/ TTree \/ TOpen \/ TVerify \/ TBCommit \/ TBOpen \/ TBVerify \/ Done
================================================================================
