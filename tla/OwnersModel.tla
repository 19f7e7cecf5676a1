---------------------------- MODULE OwnersModel ----------------------------
(* All histories of three owners, two receivers and three resources: nothing  *)
(* is released twice, or while it is held elsewhere, or kept by nobody unless  *)
(* it was handed out.                                                          *)
EXTENDS Owners
Res == 1..3
VARIABLES O, out, rel      \* out: resources handed to the caller; rel: how often each was released
mv == << O, out, rel >>
Init == O = Empty(3, 2) /\ out = {} /\ rel = [v \in Res |-> 0]
Count(fr, v) == Cardinality({i \in 1..Len(fr) : fr[i][1] = v})
Step(r, o) == O' = r.O /\ out' = o /\ rel' = [v \in Res |-> rel[v] + Count(r.fr, v)]
Alive == {s \in DOMAIN O.slot : O.slot[s].a}
Quiet == {s \in Alive : ~Receiving(O, s)}
AcquireRes == \E v \in Res : v \notin O.live /\ rel[v] = 0 /\ O' = Acquire(O, v) /\ out' = out \cup {v} /\ UNCHANGED rel
Fresh == \E s \in DOMAIN O.slot \ Alive, v \in out \cup {NoRes} : Step(New(O, s, v, 1), out \ {v})
MoveTo == \E s \in DOMAIN O.slot \ Alive, q \in Quiet : Step(MoveNew(O, s, q), out)
AssignTo == \E s \in Quiet, q \in Quiet : Step(Assign(O, s, q), out)
Exchange == \E s \in Quiet, q \in Quiet : Step(SwapSlots(O, s, q), out)
ResetTo == \E s \in Quiet, v \in out \cup {NoRes} : Step(Reset(O, s, v), out \ {v})
HandOut == \E s \in Quiet : Step(Release(O, s), (out \cup {O.slot[s].v}) \ {NoRes})
End == \E s \in Quiet : Step(Destroy(O, s), out)
Recv == \E r \in DOMAIN O.recv, s \in Quiet : ~O.recv[r].a /\ Step(Open(O, r, s), out)
Fill == \E r \in DOMAIN O.recv, v \in out : O.recv[r].a /\ ~O.recv[r].used /\ O.recv[r].s # 0 /\ Step(Put(O, r, v), out \ {v})
Close == \E r \in DOMAIN O.recv : O.recv[r].a /\ Step(Finish(O, r), out)
Pass == \E r, q \in DOMAIN O.recv : r # q /\ O.recv[q].a /\ ~O.recv[q].used
                                   /\ IF O.recv[r].a THEN ~O.recv[r].used /\ Step(AssignRecv(O, r, q), out)
                                      ELSE Step(MoveRecv(O, r, q), out)
Next == AcquireRes \/ Fresh \/ MoveTo \/ AssignTo \/ Exchange \/ ResetTo \/ HandOut \/ End \/ Recv \/ Fill \/ Close \/ Pass
Pending == {O.recv[r].v : r \in DOMAIN O.recv} \ {NoRes}
Once == \A v \in Res : rel[v] <= 1 /\ (rel[v] = 1 => v \notin O.live)
Accounted == /\ OneOwner(O) /\ OnlyLive(O)
             /\ O.live = Owned(O) \cup out \cup Pending
             /\ Owned(O) \cap out = {} /\ Owned(O) \cap Pending = {} /\ out \cap Pending = {}
OneReceiver == \A r, q \in DOMAIN O.recv : (r # q /\ O.recv[r].s # 0) => O.recv[r].s # O.recv[q].s
=============================================================================
