---------------------------- MODULE ParallelTrace ----------------------------
(* Executions of the parallel helpers: every callback invocation is an event,  *)
(* in the order the threads made them; helper results are checked against the   *)
(* sequential meaning.                                                          *)
EXTENDS Parallel, TraceBase
VARIABLE kind
Init == TInit /\ PIdle /\ kind = [arity |-> 0, form |-> "", th |-> 0]
K == UNCHANGED pvars /\ UNCHANGED kind
TBegin == /\ Is("Begin") /\ todo = {}
          /\ PBegin(E.n, IF E.c = -1 THEN ThreadChunk(E.n, E.th) ELSE E.c)
          /\ kind' = [arity |-> E.arity, form |-> E.form, th |-> E.th]
\* idx/cs are -1 when the callback does not receive them (then the chunk is known by its offset)
TCall == /\ Is("Call") /\ UNCHANGED kind
         /\ LET i == IF E.idx # -1 THEN E.idx ELSE IF E.off # -1 /\ pc > 0 THEN E.off \div pc ELSE IF \E j \in todo : ChunkLen(pn, pc, j) = E.len THEN CHOOSE j \in todo : ChunkLen(pn, pc, j) = E.len ELSE -1
            IN /\ PCall(i, IF E.off # -1 THEN E.off ELSE i * pc, E.len, E.v)
               /\ (E.cs # -1 => E.cs = pc)
TEnd == /\ Is("End") /\ PEnd /\ UNCHANGED kind
        /\ E.hits = seen
        /\ (E.map => E.res = res)
        /\ (E.hits = << >> \/ pc = 0 \/ \A k \in DOMAIN E.hits : E.hits[k] = 1)
\* a split chosen by the library for th threads: any chunk size giving an exact cover is acceptable
TSplit == /\ Is("Split") /\ K
          /\ LET c == E.cs IN
             /\ (E.n = 0 => E.calls = << >>)
             /\ (E.n > 0 => /\ c > 0
                            /\ SameBag(E.calls, [i \in 1..NumChunks(E.n, c) |-> << i - 1, (i - 1) * c, ChunkLen(E.n, c, i - 1) >>]))
          /\ E.hits = [i \in 1..E.n |-> 1]
TFill == /\ Is("Fill") /\ K /\ E.r = [i \in 1..E.n |-> E.v]
TResize == /\ Is("Resize") /\ K /\ E.r = ResizeSeq(E.s, E.n, E.v)
TChunked == /\ Is("Chunked") /\ K /\ E.r = ChunkSeq(E.s, E.c) /\ E.dist = CDiv(Len(E.s), E.c) /\ E.hits = [i \in 1..Len(E.s) |-> E.s[i] + 1]
TZipped == /\ Is("Zipped") /\ K /\ E.r = [i \in 1..Len(E.a) |-> << E.a[i], E.b[i] >>] /\ E.dist = Len(E.a)
TReversed == /\ Is("Reversed") /\ K /\ E.r = RevSeq(E.s)
TCreate == /\ Is("Create") /\ K /\ E.r = [i \in 1..E.n |-> 3 * (i - 1) + E.k] /\ E.rp = E.r /\ SameBag(E.cnt, Iota(E.n)) /\ E.cntp = [i \in 1..E.n |-> 7] /\ E.seq = Iota(E.n)
TMap == /\ Is("Map") /\ K /\ E.r1 = MapSeq(E.s, LAMBDA i, x : 2 * x + 1) /\ E.r2 = MapSeq(E.s, LAMBDA i, x : x + 10 * i)
        /\ E.fm = FlatSeq([i \in 1..Len(E.s) |-> [j \in 1..(E.s[i] % 4) |-> E.s[i] * 10 + j]])
TFind == /\ Is("Find") /\ K
         /\ LET Eq(x) == x = E.v
                Lt(x) == x < E.v
            IN /\ E.ix = IdxOf(E.s, Eq) /\ E.ixif = IdxOf(E.s, Lt)
               /\ E.all = AllIdx(E.s, Eq) /\ E.allif = AllIdx(E.s, Lt)
TSearch == /\ Is("Search") /\ K
           /\ IF \E i \in 1..Len(E.s) : E.s[i] = E.v THEN E.ix \in {i - 1 : i \in {j \in 1..Len(E.s) : E.s[j] = E.v}} ELSE E.ix = Len(E.s)
TExtend == /\ Is("Extend") /\ K /\ E.r1 = E.a \o E.b /\ E.r2 = E.a \o E.b /\ E.kept = E.b /\ E.moved = << >>
TRange == /\ Is("Range") /\ K /\ E.r = RangeFrom(E.a, E.b, E.st)
TShuffle == /\ Is("Shuffle") /\ K /\ SameBag(E.s, E.r)
TArr == /\ Is("Arr") /\ K /\ E.r0 = << 5, 6, 7, 8 >> /\ E.r1 = << 0, 1, 4, 9, 16 >> /\ E.v2 = << << 1, 2, 3 >>, << 4, 5, 6 >> >> /\ E.v1 = << 9, 8, 7 >>
TErase == /\ Is("Erase") /\ K
          /\ LET keep == SelectSeq(E.s, LAMBDA x : x # E.v)
                 keepif == SelectSeq(E.s, LAMBDA x : x % 3 # E.v % 3)
             IN /\ E.r = [i \in 1..4 |-> keep] /\ E.rif = [i \in 1..4 |-> keepif]
                /\ E.n = [i \in 1..4 |-> Len(E.s) - Len(keep)] /\ E.nif = [i \in 1..4 |-> Len(E.s) - Len(keepif)]
                /\ E.has = (\E i \in 1..Len(E.s) : E.s[i] = E.v)
                /\ E.mset = SortSeq(keepif, LAMBDA x, y : x < y) /\ E.nm = Len(E.s) - Len(keepif)
\* algorithms built on the helpers, over the field of E.p elements, with E.th threads
TPowers == /\ Is("Powers") /\ K /\ E.r = [i \in 1..E.n |-> (E.k * PowM(E.g, i - 1, E.p)) % E.p]
TBitRevPowers == /\ Is("BitRevPowers") /\ K
                 /\ LET lg == Log2(E.n) IN E.r = [i \in 1..E.n |-> (E.k * PowM(E.g, BitRev(i - 1, lg), E.p)) % E.p]
                 /\ E.rs = E.r
TMuls == /\ Is("Muls") /\ K /\ E.r = [i \in 1..E.n |-> ((i - 1) * E.g) % E.p]
TBatchInv == /\ Is("BatchInv") /\ K
             /\ IF E.zero THEN TRUE ELSE E.ok /\ Len(E.r) = Len(E.s) /\ \A i \in 1..Len(E.s) : E.r[i] \in 0..(E.p - 1) /\ (E.r[i] * E.s[i]) % E.p = E.k

Next == TBegin \/ TCall \/ TEnd \/ TSplit \/ TFill \/ TResize \/ TChunked \/ TZipped \/ TReversed \/ TCreate \/ TMap \/ TFind \/ TSearch \/ TExtend \/ TRange \/ TShuffle \/ TArr \/ TErase
        \/ TPowers \/ TBitRevPowers \/ TMuls \/ TBatchInv \/ (TDone /\ UNCHANGED tvars /\ K)
=============================================================================
