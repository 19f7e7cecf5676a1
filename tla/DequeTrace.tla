------------------------------ MODULE DequeTrace ------------------------------
(* Histories of real circular_deques.  Each event names the operation, its     *)
(* arguments, what was returned, the full content seen through forward and     *)
(* reverse iteration and operator[], and the object census.                    *)
EXTENDS Deque, TraceBase
NDeq == 3
Init == TInit /\ q = [d \in 1..NDeq |-> << >>] /\ ret = 0

Seen(d) == /\ E.fwd = q'[d] /\ E.rev = Rev(q'[d]) /\ E.idx = q'[d]
           /\ E.size = Len(q'[d]) /\ E.empty = (Len(q'[d]) = 0)
           /\ E.cap >= Len(q'[d])
           /\ E.dist = Len(q'[d])
           /\ (Len(q'[d]) > 0 => E.front = q'[d][1] /\ E.back = q'[d][Len(q'[d])])
           /\ E.all = [i \in 1..NDeq |-> Len(q'[i])]
           /\ E.bad = 0 /\ (E.live = -1 \/ E.live = Live')
           /\ E.iterok
Ev(op, A) == Is(op) /\ A /\ Seen(E.d)
R == E.ret = ret'

TPushBack == Ev("PushBack", PushBack(E.d, E.v) /\ R)
TPushFront == Ev("PushFront", PushFront(E.d, E.v) /\ R)
TPopBack == Ev("PopBack", PopBack(E.d))
TPopFront == Ev("PopFront", PopFront(E.d))
TInsert1 == Ev("Insert1", Insert1(E.d, E.p, E.v) /\ R)
TInsertN == Ev("InsertN", InsertN(E.d, E.p, E.n, E.v))
TInsertR == Ev("InsertR", InsertR(E.d, E.p, E.s))
TErase == Ev("Erase", Erase(E.d, E.a, E.b) /\ R)
TResize == Ev("Resize", Resize(E.d, E.n, E.v))
TClear == Ev("Clear", Clear(E.d)) /\ E.cap = 0
TAssignN == Ev("AssignN", AssignN(E.d, E.n, E.v))
TAssignR == Ev("AssignR", AssignR(E.d, E.s))
TSet == Ev("Set", Set(E.d, E.p + 1, E.v))
TReserve == Ev("Reserve", Keep(E.d)) /\ E.cap >= E.n
TShrinkToFit == Ev("ShrinkToFit", Keep(E.d)) /\ E.cap = E.size
TCopy == Ev("Copy", Copy(E.d, E.e))
TMove == Ev("Move", Move(E.d, E.e))
TSwap == Ev("Swap", Swap(E.d, E.e))
TEraseValue == Ev("EraseValue", EraseValue(E.d, E.v) /\ R)
TEraseOdd == Ev("EraseOdd", EraseOdd(E.d) /\ R)
TFinal == Is("Final") /\ E.bad = 0 /\ E.live \in {-1, 0} /\ UNCHANGED dvars
End == TDone /\ UNCHANGED << t, l, q, ret >>
Next == \/ TPushBack \/ TPushFront \/ TPopBack \/ TPopFront \/ TInsert1 \/ TInsertN \/ TInsertR
        \/ TErase \/ TResize \/ TClear \/ TAssignN \/ TAssignR \/ TSet \/ TReserve \/ TShrinkToFit
        \/ TCopy \/ TMove \/ TSwap \/ TEraseValue \/ TEraseOdd \/ TFinal \/ End
=============================================================================
