-------------------------------- MODULE Alloc --------------------------------
(* An allocator that accounts for what passes through it, the allocator below  *)
(* it, and the registry from which allocators are obtained.                    *)
(* mode: "under" the allocator below knows sizes; "local" the wrapper keeps    *)
(* them; "none" nobody does.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
LOCAL INSTANCE TLC

Max2(a, b) == IF a > b THEN a ELSE b
\* S: live blocks [ptr -> [req, size, id]], total/high/cur bytes, records, next id, held: not yet unreferenced
Fresh(mode) == [mode |-> mode, live |-> << >>, total |-> 0, high |-> 0, cur |-> 0, recs |-> << >>, next |-> 0, held |-> TRUE, gone |-> FALSE]
\* what is accounted for a block: the size below if known, else the larger of request and what can be found out
Counted(mode, req, below) == CASE mode = "under" -> below [] mode = "local" -> Max2(req, below) [] mode = "none" -> req
Alloc(S, p, req, below, idBelow) ==
  LET sz == Counted(S.mode, req, below)
      cur == IF S.mode = "none" THEN 0 ELSE S.cur + sz
      id == CASE S.mode = "under" -> idBelow [] S.mode = "local" -> S.next + 1 [] S.mode = "none" -> 0
  IN [S EXCEPT !.live = TLCEval([q \in DOMAIN @ \cup {p} |-> IF q = p THEN [req |-> req, size |-> sz, id |-> id] ELSE @[q]]),
               !.total = @ + sz, !.cur = cur, !.high = Max2(@, cur), !.recs = Append(@, sz),
               !.next = IF S.mode = "local" THEN @ + 1 ELSE @]
Free(S, p) ==
  LET sz == S.live[p].size
      live == TLCEval([q \in DOMAIN S.live \ {p} |-> S.live[q]])
  IN [S EXCEPT !.live = live,
               !.cur = IF S.mode = "none" THEN @ ELSE @ - sz,
               !.recs = IF S.mode = "none" THEN @ ELSE Append(@, -sz),
               !.gone = ~S.held /\ DOMAIN live = {}]
Unref(S) == [S EXCEPT !.recs = << >>, !.held = FALSE, !.gone = DOMAIN S.live = {}]
SumSizes(L, D) == MapThenSumSet(LAMBDA q : L[q].size, D)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* the highest level reached when the changes s are applied from at
PeakSeq(s, at, best) == FoldLeft(LAMBDA a, b : << a[1] + b, Max2(a[2], a[1] + b) >>, << at, best >>, s)[2]
\* what the numbers must mean
Books(S) == /\ (S.mode # "none" => S.cur = SumSizes(S.live, DOMAIN S.live))
            /\ (S.mode = "none" => S.cur = 0 /\ S.high = 0)
            /\ S.cur <= S.high /\ S.high <= S.total /\ S.cur >= 0
            /\ (S.held /\ S.mode # "none" => SumSeq(S.recs) = S.cur /\ PeakSeq(S.recs, 0, 0) = S.high)
Ends(S) == S.gone <=> (~S.held /\ DOMAIN S.live = {})
Ids(S) == \A p, q \in DOMAIN S.live : (p # q /\ S.mode = "local") => S.live[p].id # S.live[q].id /\ S.live[p].id # 0

\* ---- the registry: sequence of [name, prio, numa]; frozen after the first allocation
CanRegister(reg, frozen, name, prio) ==
  ~frozen /\ name # "" /\ prio >= 0 /\ \A i \in 1..Len(reg) : ~(reg[i].name = name /\ reg[i].prio = prio)
Highest(reg, D) == {i \in D : \A j \in D : reg[j].prio <= reg[i].prio}
Best(reg) == Highest(reg, 1..Len(reg))
BestSub(reg) == LET n == {i \in 1..Len(reg) : reg[i].numa} IN IF n # {} THEN Highest(reg, n) ELSE Best(reg)

\* ---- attributes: three flags and a scope
Bits(a) == {k \in 0..30 : (a \div (2 ^ k)) % 2 = 1}
Merged(a, b) == Bits(a) \cup Bits(b)
=============================================================================
