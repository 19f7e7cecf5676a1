------------------------------- MODULE Parallel -------------------------------
(* Splitting n elements over workers in chunks of c (tachyon::base             *)
(* Parallelize*, base/parallelize.h).  Chunk i covers elements [i*c, i*c+len). *)
(* State: n and c of the running loop, the chunks not yet started, how often    *)
(* each element was visited, and the results stored per chunk.                  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES pn, pc, todo, seen, res
pvars == << pn, pc, todo, seen, res >>

CDiv(a, b) == (a + b - 1) \div b
NumChunks(n, c) == IF c = 0 THEN 0 ELSE CDiv(n, c)
ChunkLen(n, c, i) == IF (i + 1) * c > n THEN n - i * c ELSE c
PIdle == pn = 0 /\ pc = 0 /\ todo = {} /\ seen = << >> /\ res = << >>
PBegin(n, c) == /\ pn' = n /\ pc' = c
                /\ todo' = 0..(NumChunks(n, c) - 1)
                /\ seen' = [i \in 1..n |-> 0]
                /\ res' = [i \in 1..NumChunks(n, c) |-> -1]
\* a worker runs the callback on chunk i: elements off..off+len-1 are handed to it
PCall(i, off, len, v) ==
  /\ i \in todo /\ off = i * pc /\ len = ChunkLen(pn, pc, i)
  /\ todo' = todo \ {i}
  /\ seen' = [k \in 1..pn |-> IF k > off /\ k <= off + len THEN seen[k] + 1 ELSE seen[k]]
  /\ res' = [res EXCEPT ![i + 1] = v]
  /\ UNCHANGED << pn, pc >>
PEnd == todo = {} /\ UNCHANGED pvars
\* the guarantees
AtMostOnce == \A k \in DOMAIN seen : seen[k] <= 1
ExactlyOnce == todo = {} /\ pc > 0 => \A k \in DOMAIN seen : seen[k] = 1
\* values a split over w threads may choose as chunk size: at most w chunks, none empty
ThreadChunk(n, w) == IF n = 0 THEN 0 ELSE CDiv(n, w)

----------------------------------------------------------------------------
(* Sequential meaning of the container helpers (0-based indices).              *)
Iota(n) == [i \in 1..n |-> i - 1]
MapSeq(s, F(_, _)) == [i \in 1..Len(s) |-> F(i - 1, s[i])]
RECURSIVE FlatSeq(_)
FlatSeq(s) == IF s = << >> THEN << >> ELSE Head(s) \o FlatSeq(Tail(s))
IdxOf(s, P(_)) == IF \E i \in 1..Len(s) : P(s[i]) THEN (CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in 1..(i - 1) : ~P(s[j])) - 1 ELSE -1
AllIdx(s, P(_)) == SelectSeq(Iota(Len(s)), LAMBDA i : P(s[i + 1]))
ResizeSeq(s, n, v) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE v]
ChunkSeq(s, c) == [i \in 1..CDiv(Len(s), c) |-> SubSeq(s, (i - 1) * c + 1, IF i * c > Len(s) THEN Len(s) ELSE i * c)]
CountIn(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : CountIn(a, a[i]) = CountIn(b, a[i])
RECURSIVE RangeFrom(_, _, _)
RangeFrom(a, b, st) == IF a >= b THEN << >> ELSE << a >> \o RangeFrom(a + st, b, st)
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Mod(a, p) == a % p
RECURSIVE PowM(_, _, _)
PowM(g, k, p) == IF k = 0 THEN 1 % p ELSE (g * PowM(g, k - 1, p)) % p
RECURSIVE BitRev(_, _)
BitRev(x, bits) == IF bits = 0 THEN 0 ELSE (x % 2) * 2^(bits - 1) + BitRev(x \div 2, bits - 1)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
=============================================================================
