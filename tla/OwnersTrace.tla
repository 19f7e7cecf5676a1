---------------------------- MODULE OwnersTrace ----------------------------
(* Recorded histories of owners of handles, files and directories.            *)
EXTENDS Owners, TraceBase
VARIABLES own, aut, mow
vars == << own, aut, mow >>
NG == 4
Init == /\ TInit /\ own = Empty(1, 1) /\ aut = [val |-> << >>, gd |-> << >>] /\ mow = [m |-> << >>, ext |-> << >>]
Rest == UNCHANGED << aut, mow >>
\* who holds what, as the owners themselves tell
Shown(O) == /\ Len(E.slots) = Cardinality(DOMAIN O.slot)
            /\ \A s \in DOMAIN O.slot : E.slots[s] = (IF O.slot[s].a THEN O.slot[s].v ELSE -1)
            /\ \A s \in DOMAIN O.slot : O.slot[s].a => E.valid[s] = (O.slot[s].v # NoRes /\ (E.kind = "td" => O.slot[s].v \in O.live))
\* the acquisitions and releases reported while it happened: acc = [own, fr, ok]
RECURSIVE Fold(_, _)
Fold(lg, acc) ==
  IF lg = << >> \/ ~acc.ok THEN acc
  ELSE LET e0 == Head(lg) v0 == e0[3] s0 == e0[2]
           nx == CASE e0[1] = "A" -> [acc EXCEPT !.ok = v0 \notin DOMAIN acc.own, !.own = @ @@ (v0 :> s0)]
                   [] e0[1] = "R" -> [acc EXCEPT !.ok = v0 \in DOMAIN acc.own /\ acc.own[v0] = s0,
                                                 !.own = [z \in DOMAIN acc.own \ {v0} |-> acc.own[z]]]
                   [] e0[1] = "F" -> [acc EXCEPT !.ok = v0 \notin DOMAIN acc.own, !.fr = Append(@, << v0, s0 >>)]
       IN Fold(Tail(lg), nx)
Holders(O) == [v0 \in Owned(O) |-> CHOOSE s \in DOMAIN O.slot : O.slot[s].a /\ O.slot[s].v = v0]
Yields(r0) == /\ Shown(r0.O)
              /\ own' = r0.O
              /\ IF E.kind = "t"
                 THEN LET f0 == Fold(E.log, [own |-> Holders(own), fr |-> << >>, ok |-> TRUE])
                      IN f0.ok /\ f0.own = Holders(r0.O) /\ f0.fr = r0.fr
                 ELSE IF E.kind = "p" THEN E.log = [i \in 1..Len(r0.fr) |-> << "F", r0.fr[i][2], r0.fr[i][1] >>]
                 ELSE IF E.kind = "fd" THEN /\ {E.open[i] : i \in 1..Len(E.open)} = r0.O.live
                                            /\ {E.owned[i] : i \in 1..Len(E.owned)} = Owned(r0.O)
                 ELSE {E.open[i] : i \in 1..Len(E.open)} = r0.O.live
              /\ Rest
TOwners == /\ Is("Owners") /\ own' = Empty(E.n, E.nr) /\ Rest
TAcq == /\ Is("Acquire")
        /\ E.v \notin own.live
        /\ own' = Acquire(own, E.v) /\ Rest
TLose == /\ Is("Lose")
         /\ Yields(R(Lose(own, E.v), << >>))
TNew == /\ Is("New") /\ (E.v = NoRes \/ E.v \in Loose(own)) /\ Yields(New(own, E.a, E.v, E.g))
TMoveNew == /\ Is("MoveNew") /\ Yields(MoveNew(own, E.a, E.b))
TAssign == /\ Is("Assign") /\ Yields(Assign(own, E.a, E.b))
TSwap == /\ Is("Swap") /\ Yields(SwapSlots(own, E.a, E.b))
TReset == /\ Is("Reset")
          /\ IF E.v # NoRes /\ E.v = own.slot[E.a].v THEN E.died /\ UNCHANGED own /\ Rest
             ELSE ~E.died /\ Yields(Reset(own, E.a, E.v))
TRelease == /\ Is("Release") /\ E.ret = own.slot[E.a].v /\ Yields(Release(own, E.a))
TDestroy == /\ Is("Destroy")
            /\ IF Receiving(own, E.a) THEN E.died /\ UNCHANGED own /\ Rest
               ELSE ~E.died /\ Yields(Destroy(own, E.a))
TOpen == /\ Is("Open")
         /\ IF Receiving(own, E.b) THEN E.died /\ UNCHANGED own /\ Rest
            ELSE ~E.died /\ Yields(Open(own, E.a, E.b))
TPut == /\ Is("Put") /\ Yields(Put(own, E.a, E.v))
TFinish == /\ Is("Finish") /\ Yields(Finish(own, E.a))
TMoveRecv == /\ Is("MoveRecv")
             /\ IF own.recv[E.b].used THEN E.died /\ UNCHANGED own /\ Rest
                ELSE ~E.died /\ Yields(MoveRecv(own, E.a, E.b))
TAssignRecv == /\ Is("AssignRecv")
             /\ IF own.recv[E.a].used \/ own.recv[E.b].used THEN E.died /\ UNCHANGED own /\ Rest
                ELSE ~E.died /\ Yields(AssignRecv(own, E.a, E.b))
TEq == /\ Is("Eq") /\ UNCHANGED own /\ Rest
       /\ LET same == own.slot[E.a].v = E.v IN E.eq = same /\ E.ne = ~same /\ E.req = same /\ E.rne = ~same
\* closing a descriptor behind its owner's back
TClose == /\ Is("Close")
          /\ IF E.enforced /\ E.v \in Owned(own) THEN E.died /\ UNCHANGED own /\ Rest
             ELSE /\ ~E.died
                  /\ E.ret = (E.v \in own.live)
                  /\ Yields(R(Lose(own, E.v), << >>))
TForget == /\ Is("Forget") /\ E.owned = << >> /\ UNCHANGED own /\ Rest
\* temporary directories
TCreate == /\ Is("Create")
           /\ LET ok == own.slot[E.a].v = NoRes IN
              /\ E.ok = ok
              /\ IF ok THEN E.v \notin own.live /\ Yields(R(Hold(Acquire(own, E.v), E.a, E.v), << >>))
                 ELSE Yields(R(own, << >>))
TSet == /\ Is("Set")
        /\ LET ok == own.slot[E.a].v = NoRes /\ ~E.bad IN
           /\ E.ok = ok
           /\ IF ok THEN Yields(R(Hold(Acquire(own, E.v), E.a, E.v), << >>))
              ELSE Yields(R(own, << >>))
TDelete == /\ Is("Delete")
           /\ E.ok = (own.slot[E.a].v # NoRes)
           /\ Yields(Drop(own, E.a))

\* ---- values replaced for a while
AShown(A) == E.val = A.val
ABecomes(A) == AShown(A) /\ aut' = A /\ UNCHANGED << own, mow >>
TAuto == /\ Is("Auto") /\ aut' = [val |-> E.val, gd |-> [g \in 1..E.ng |-> NoGuard]] /\ UNCHANGED << own, mow >>
TPoke == /\ Is("Poke") /\ ABecomes([aut EXCEPT !.val[E.x] = E.v])
TGuard == /\ Is("Guard") /\ ABecomes(Guard(aut, E.g, E.x, E.v))
TUndo == /\ Is("Undo") /\ ABecomes(Undo(aut, E.g))
TTake == /\ Is("Take") /\ ABecomes(Take(aut, E.g, E.h))
TRetake == /\ Is("Retake") /\ ABecomes(Retake(aut, E.g, E.h))

\* ---- owned or referred to
MShown(W) == /\ \A i \in DOMAIN W.m :
                 /\ E.m[i].k = W.m[i].k
                 /\ (W.m[i].k \in {"own", "ref"} => E.m[i].v = Seen(W, i))
                 /\ (W.m[i].k = "ref" => E.m[i].x = W.m[i].x)
             /\ E.ext = W.ext
             /\ (E.vec => E.live = Total(W, DOMAIN W.m))
MBecomes(W) == LET w0 == TLCEval(W) IN MShown(w0) /\ mow' = w0 /\ UNCHANGED << own, aut >>
TMaybe == /\ Is("Maybe") /\ mow' = [m |-> [i \in 1..E.n |-> Gone], ext |-> E.ext] /\ UNCHANGED << own, aut >>
TMNull == /\ Is("MNull") /\ MBecomes([mow EXCEPT !.m[E.a] = Null])
TMOwn == /\ Is("MOwn") /\ MBecomes([mow EXCEPT !.m[E.a] = Own(E.v)])
TMRef == /\ Is("MRef") /\ MBecomes([mow EXCEPT !.m[E.a] = Refer(E.x)])
TMCopy == /\ Is("MCopy") /\ MBecomes([mow EXCEPT !.m[E.a] = mow.m[E.b]])
TMMove == /\ Is("MMove") /\ MBecomes([mow EXCEPT !.m[E.a] = mow.m[E.b], !.m[E.b] = Null])
TMWrite == /\ Is("MWrite")
           /\ MBecomes(IF mow.m[E.a].k = "ref" THEN [mow EXCEPT !.ext[mow.m[E.a].x][E.i] = E.y]
                       ELSE [mow EXCEPT !.m[E.a].v[E.i] = E.y])
TMExt == /\ Is("MExt") /\ MBecomes([mow EXCEPT !.ext[E.x][E.i] = E.y])
TMDrop == /\ Is("MDrop") /\ MBecomes([mow EXCEPT !.m[E.a] = Gone])
TMEnd == /\ Is("MEnd") /\ E.live = 0 /\ E.bad = 0 /\ UNCHANGED vars

\* ---- references compare by identity or by what they refer to
TRef == /\ Is("Ref") /\ UNCHANGED vars
        /\ LET a0 == IF E.shallow THEN E.i ELSE E.vi
               b0 == IF E.shallow THEN E.j ELSE E.vj
           IN /\ E.eq = (a0 = b0) /\ E.ne = (a0 # b0) /\ E.lt = (a0 < b0) /\ E.le = (a0 <= b0)
              /\ E.gt = (a0 > b0) /\ E.ge = (a0 >= b0) /\ (a0 = b0 => E.hash)
              /\ E.val = E.vi

Next == \/ TOwners \/ TAcq \/ TLose \/ TNew \/ TMoveNew \/ TAssign \/ TSwap \/ TReset \/ TRelease \/ TDestroy
        \/ TOpen \/ TPut \/ TFinish \/ TMoveRecv \/ TAssignRecv \/ TEq \/ TClose \/ TForget
        \/ TCreate \/ TSet \/ TDelete
        \/ TAuto \/ TPoke \/ TGuard \/ TUndo \/ TTake \/ TRetake
        \/ TMaybe \/ TMNull \/ TMOwn \/ TMRef \/ TMCopy \/ TMMove \/ TMWrite \/ TMExt \/ TMDrop \/ TMEnd \/ TRef
        \/ (TDone /\ UNCHANGED tvars /\ UNCHANGED vars)
=============================================================================
