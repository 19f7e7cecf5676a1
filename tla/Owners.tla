------------------------------- MODULE Owners -------------------------------
(* Scoped owners.  A resource is live from its acquisition to its release; an  *)
(* owner (slot) holds at most one resource, a receiver is a pending write to   *)
(* one owner, and everything that an owner stops holding without handing it    *)
(* over is released at that moment.  Also scoped replacement of values and     *)
(* values that are owned or referred to.                                       *)
EXTENDS Integers, Sequences, FiniteSets

NoRes == 0
DeadSlot == [a |-> FALSE, v |-> NoRes, g |-> 0]
NoRecv == [a |-> FALSE, s |-> 0, v |-> NoRes, used |-> FALSE]
\* O = [slot, recv : functions, live : set of resources]; results carry what was released, in order
Empty(ns, nr) == [slot |-> [s \in 1..ns |-> DeadSlot], recv |-> [r \in 1..nr |-> NoRecv], live |-> {}]
Owned(O) == {O.slot[s].v : s \in {z \in DOMAIN O.slot : O.slot[z].a}} \ {NoRes}
Loose(O) == O.live \ Owned(O)
Receiving(O, s) == \E r \in DOMAIN O.recv : O.recv[r].a /\ O.recv[r].s = s
R(O, fr) == [O |-> O, fr |-> fr]
Hold(O, s, v) == [O EXCEPT !.slot[s].v = v]
\* s stops holding what it holds
Drop(O, s) == LET v == O.slot[s].v
              IN IF v = NoRes THEN R(O, << >>)
                 ELSE R([Hold(O, s, NoRes) EXCEPT !.live = @ \ {v}], << << v, O.slot[s].g >> >>)
New(O, s, v, g) == R([O EXCEPT !.slot[s] = [a |-> TRUE, v |-> v, g |-> g]], << >>)
Reset(O, s, v) == LET d == Drop(O, s) IN R(Hold(d.O, s, v), d.fr)
Release(O, s) == R(Hold(O, s, NoRes), << >>)
MoveNew(O, s, q) == R(Hold([O EXCEPT !.slot[s] = O.slot[q]], q, NoRes), << >>)
Assign(O, s, q) == IF s = q THEN R(O, << >>)
                   ELSE LET d == Drop(O, s) v == O.slot[q].v IN R(Hold(Hold(d.O, q, NoRes), s, v), d.fr)
SwapSlots(O, s, q) == R([O EXCEPT !.slot[s].v = O.slot[q].v, !.slot[q].v = O.slot[s].v], << >>)
Destroy(O, s) == LET d == Drop(O, s) IN R([d.O EXCEPT !.slot[s] = DeadSlot], d.fr)
\* receivers
Open(O, r, s) == R([O EXCEPT !.recv[r] = [a |-> TRUE, s |-> s, v |-> NoRes, used |-> FALSE]], << >>)
Put(O, r, v) == R([O EXCEPT !.recv[r].v = v, !.recv[r].used = TRUE], << >>)
Finish(O, r) == LET q == O.recv[r]
                    d == IF q.s = 0 THEN R(O, << >>) ELSE Reset(O, q.s, q.v)
                IN R([d.O EXCEPT !.recv[r] = NoRecv], d.fr)
MoveRecv(O, r, q) == R([O EXCEPT !.recv[r] = O.recv[q], !.recv[q].s = 0], << >>)
AssignRecv(O, r, q) == LET d == Finish(O, r) IN R([d.O EXCEPT !.recv[r] = O.recv[q], !.recv[q].s = 0], d.fr)
Acquire(O, v) == [O EXCEPT !.live = @ \cup {v}]
Lose(O, v) == [O EXCEPT !.live = @ \ {v}]
\* what must always hold
OneOwner(O) == \A s, q \in DOMAIN O.slot : (s # q /\ O.slot[s].v # NoRes) => O.slot[s].v # O.slot[q].v
OnlyLive(O) == Owned(O) \subseteq O.live

\* scoped replacement of values: A = [val, gd]; a guard remembers one variable and its value
NoGuard == [x |-> 0, old |-> 0]
Guard(A, g, x, v) == [A EXCEPT !.val[x] = v, !.gd[g] = [x |-> x, old |-> A.val[x]]]
Undo(A, g) == IF A.gd[g].x = 0 THEN [A EXCEPT !.gd[g] = NoGuard]
              ELSE [A EXCEPT !.val[A.gd[g].x] = A.gd[g].old, !.gd[g] = NoGuard]
Take(A, g, h) == [A EXCEPT !.gd[g] = A.gd[h], !.gd[h] = NoGuard]
Retake(A, g, h) == IF g = h THEN A ELSE LET B == Undo(A, g) IN Take(B, g, h)

\* owned or referred to: W = [m, ext]
Gone == [k |-> "dead", v |-> << >>, x |-> 0]
Null == [k |-> "null", v |-> << >>, x |-> 0]
Own(v) == [k |-> "own", v |-> v, x |-> 0]
Refer(x) == [k |-> "ref", v |-> << >>, x |-> x]
Seen(W, i) == IF W.m[i].k = "ref" THEN W.ext[W.m[i].x] ELSE W.m[i].v
RECURSIVE Total(_, _)
Total(W, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE z \in S : TRUE IN Len(W.m[i].v) + Total(W, S \ {i})
=============================================================================
