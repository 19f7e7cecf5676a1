-------------------------------- MODULE Deque --------------------------------
(* A family of double-ended queues (tachyon::base::circular_deque) as plain   *)
(* sequences.  q[d] is the content of deque d; ret is what the last operation  *)
(* returned (the offset of the returned iterator / a size / a value).          *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES q, ret
dvars == << q, ret >>

Rep(n, v) == [i \in 1..n |-> v]
InsertAt(s, p, x) == SubSeq(s, 1, p) \o x \o SubSeq(s, p + 1, Len(s))   \* p elements stay in front
EraseRange(s, a, b) == SubSeq(s, 1, a) \o SubSeq(s, b + 1, Len(s))       \* positions a..b-1 (0-based)
Take(s, n) == SubSeq(s, 1, n)
Default == 0
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Put(d, s, r) == q' = [q EXCEPT ![d] = s] /\ ret' = r

PushBack(d, v)      == Put(d, Append(q[d], v), v)
PushFront(d, v)     == Put(d, << v >> \o q[d], v)
PopBack(d)          == Len(q[d]) > 0 /\ Put(d, Take(q[d], Len(q[d]) - 1), 0)
PopFront(d)         == Len(q[d]) > 0 /\ Put(d, Tail(q[d]), 0)
Insert1(d, p, v)    == p \in 0..Len(q[d]) /\ Put(d, InsertAt(q[d], p, << v >>), p)
InsertN(d, p, n, v) == p \in 0..Len(q[d]) /\ Put(d, InsertAt(q[d], p, Rep(n, v)), 0)
InsertR(d, p, s)    == p \in 0..Len(q[d]) /\ Put(d, InsertAt(q[d], p, s), 0)
Erase(d, a, b)      == a \in 0..Len(q[d]) /\ b \in a..Len(q[d]) /\ Put(d, EraseRange(q[d], a, b), a)
Resize(d, n, v)     == Put(d, IF n <= Len(q[d]) THEN Take(q[d], n)
                              ELSE q[d] \o Rep(n - Len(q[d]), v), 0)
Clear(d)            == Put(d, << >>, 0)
AssignN(d, n, v)    == Put(d, Rep(n, v), 0)
AssignR(d, s)       == Put(d, s, 0)
Set(d, i, v)        == i \in 1..Len(q[d]) /\ Put(d, [q[d] EXCEPT ![i] = v], 0)
Keep(d)             == UNCHANGED q /\ ret' = 0          \* reserve, shrink_to_fit
Copy(d, e)          == q' = [q EXCEPT ![d] = q[e]] /\ ret' = 0
\* A moved-from deque is empty.
Move(d, e)          == d # e /\ q' = [q EXCEPT ![d] = q[e], ![e] = << >>] /\ ret' = 0
Swap(d, e)          == q' = [q EXCEPT ![d] = q[e], ![e] = q[d]] /\ ret' = 0
EraseValue(d, v)    == LET s == SelectSeq(q[d], LAMBDA x : x # v)
                       IN Put(d, s, Len(q[d]) - Len(s))
EraseOdd(d)         == LET s == SelectSeq(q[d], LAMBDA x : x % 2 = 0)
                       IN Put(d, s, Len(q[d]) - Len(s))
Live == LET RECURSIVE Sum(_)
            Sum(S) == IF S = {} THEN 0 ELSE LET d == CHOOSE x \in S : TRUE
                                            IN Len(q[d]) + Sum(S \ {d})
        IN Sum(DOMAIN q)
=============================================================================
