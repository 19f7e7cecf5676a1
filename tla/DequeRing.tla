------------------------------ MODULE DequeRing ------------------------------
(* The ring buffer of circular_deque (one slot wasted, 25% growth, automatic   *)
(* shrinking) as a state machine.  Checked: it refines Deque, and every slot   *)
(* is constructed once before it is destroyed once (slots hold 0 when raw).    *)
EXTENDS Integers, Sequences

CONSTANTS Vals, MaxLen, InitCap
VARIABLES buf, b, e, q, ret
Raw == 0
D == INSTANCE Deque

N == Len(buf)
Size == IF b <= e THEN e - b ELSE N - b + e
Cap == IF N = 0 THEN 0 ELSE N - 1
At(i) == buf[((b + i) % N) + 1]
Content == [i \in 1..Size |-> At(i - 1)]
Max(x, y) == IF x > y THEN x ELSE y

\* state record operations
Mk(bf, bb, ee) == [buf |-> bf, b |-> bb, e |-> ee]
SizeOf(r) == IF r.b <= r.e THEN r.e - r.b ELSE Len(r.buf) - r.b + r.e
CapOf(r) == IF Len(r.buf) = 0 THEN 0 ELSE Len(r.buf) - 1
SetCap(r, c) ==
  LET n == SizeOf(r)
      old == [i \in 1..n |-> r.buf[((r.b + i - 1) % Len(r.buf)) + 1]]
  IN Mk([i \in 1..(c + 1) |-> IF i <= n THEN old[i] ELSE Raw], 0, n)
Expand(r, k) ==
  LET need == SizeOf(r) + k
  IN IF CapOf(r) >= need THEN r
     ELSE SetCap(r, Max(Max(need, InitCap), CapOf(r) + CapOf(r) \div 4))
Shrink(r) ==
  IF CapOf(r) <= InitCap THEN r
  ELSE IF CapOf(r) - SizeOf(r) < SizeOf(r) THEN r
  ELSE LET c == Max(InitCap, SizeOf(r) + SizeOf(r) \div 4)
       IN IF c < CapOf(r) THEN SetCap(r, c) ELSE r
Store(r, i, v) == [r EXCEPT !.buf[i + 1] = v]

Back(r, v) == LET x == Expand(r, 1)
                  y == Store(x, x.e, v)
              IN [y EXCEPT !.e = IF x.e = Len(x.buf) - 1 THEN 0 ELSE x.e + 1]
Front(r, v) == LET x == Expand(r, 1)
                   nb == IF x.b = 0 THEN Len(x.buf) - 1 ELSE x.b - 1
               IN Store([x EXCEPT !.b = nb], nb, v)
PopF(r) == LET y == Store(r, r.b, Raw)
           IN Shrink([y EXCEPT !.b = IF r.b + 1 = Len(r.buf) THEN 0 ELSE r.b + 1])
PopB(r) == LET ne == IF r.e = 0 THEN Len(r.buf) - 1 ELSE r.e - 1
           IN Shrink(Store([r EXCEPT !.e = ne], ne, Raw))
\* the in-place right shift of MakeRoomFor, then placement of v
RECURSIVE ShiftRight(_, _, _, _)
ShiftRight(r, src, dst, stop) ==
  IF src = stop THEN r
  ELSE LET M == Len(r.buf)
           s == (src + M - 1) % M
           d == (dst + M - 1) % M
       IN ShiftRight(Store(Store(r, d, r.buf[s + 1]), s, Raw), s, d, stop)
Room(r, p, v) ==
  LET x == Expand(r, 1)
      M == Len(x.buf)
      ins == (x.b + p) % M
      ne == (x.e + 1) % M
      y == ShiftRight([x EXCEPT !.e = ne], x.e, ne, ins)
  IN Store(y, ins, v)
RECURSIVE ShiftLeft(_, _, _)
ShiftLeft(r, src, dst) ==
  IF src = r.e THEN [r EXCEPT !.e = dst]
  ELSE LET M == Len(r.buf)
       IN ShiftLeft(Store(Store(r, dst, r.buf[src + 1]), src, Raw), (src + 1) % M, (dst + 1) % M)
RECURSIVE RawRange(_, _, _)
RawRange(r, i, k) == IF k = 0 THEN r ELSE RawRange(Store(r, i % Len(r.buf), Raw), i + 1, k - 1)
Del(r, p, k) ==
  IF k = 0 THEN r
  ELSE LET M == Len(r.buf)
           first == (r.b + p) % M
           last == (first + k) % M
           y == RawRange(r, first, k)
       IN IF first = r.b THEN [y EXCEPT !.b = last] ELSE ShiftLeft(y, last, first)

Cur == Mk(buf, b, e)
To(r) == buf' = r.buf /\ b' = r.b /\ e' = r.e
Init == buf = << >> /\ b = 0 /\ e = 0 /\ q = [d \in {1} |-> << >>] /\ ret = 0

PushBack == \E v \in Vals : Size < MaxLen /\ To(Back(Cur, v)) /\ D!PushBack(1, v)
PushFront == \E v \in Vals : Size < MaxLen /\ To(Front(Cur, v)) /\ D!PushFront(1, v)
PopFront == Size > 0 /\ To(PopF(Cur)) /\ D!PopFront(1)
PopBack == Size > 0 /\ To(PopB(Cur)) /\ D!PopBack(1)
Insert == \E v \in Vals, p \in 1..Size : Size < MaxLen /\ To(Room(Cur, p, v)) /\ D!Insert1(1, p, v)
Erase == \E p \in 0..Size, k \in 0..Size : p + k <= Size /\ To(Del(Cur, p, k)) /\ D!Erase(1, p, p + k)
Reserve == \E c \in {MaxLen + 2} : c > Cap /\ To(SetCap(Cur, c)) /\ D!Keep(1)
ShrinkToFit == IF Size = 0 THEN buf' = << >> /\ UNCHANGED << b, e >> /\ D!Keep(1)
               ELSE To(SetCap(Cur, Size)) /\ D!Keep(1)
Next == PushBack \/ PushFront \/ PopFront \/ PopBack \/ Insert \/ Erase \/ Reserve \/ ShrinkToFit
Spec == Init /\ [][Next]_<< buf, b, e, q, ret >>

Refines == Content = q[1]
RawOutside == \A i \in 1..N : (buf[i] = Raw) = ~(\E k \in 0..(Size - 1) : ((b + k) % N) + 1 = i)
View == << buf, b, e >>
=============================================================================
