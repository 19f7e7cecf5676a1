----------------------------- MODULE AllocTrace -----------------------------
(* Recorded histories of tracking allocators and allocator registries.        *)
EXTENDS Alloc, TraceBase
VARIABLES S, below, reg, froz, pickd
vars == << S, below, reg, froz, pickd >>
Init == TInit /\ S = Fresh("none") /\ below = {} /\ reg = << >> /\ froz = FALSE /\ pickd = << >>
RegSame == UNCHANGED << reg, froz, pickd >>
\* everything that can be asked about the allocator agrees with the books
Agrees(s0) ==
  /\ E.gone = s0.gone
  /\ {E.under[i] : i \in 1..Len(E.under)} = below'
  /\ (s0.held => /\ E.total = s0.total /\ E.high = s0.high /\ E.cur = s0.cur
                 /\ E.recs = s0.recs /\ E.mono
                 /\ E.tracks = (s0.mode # "none")
                 /\ (s0.mode # "none" =>
                      /\ {<< E.blocks[i][1], E.blocks[i][2], E.blocks[i][3], E.blocks[i][4] >> : i \in 1..Len(E.blocks)}
                          = {<< q0, s0.live[q0].req, s0.live[q0].size, s0.live[q0].id >> : q0 \in DOMAIN s0.live})
                 /\ E.slow = [i \in 1..Len(E.blocks) |-> IF s0.mode = "none" THEN 0 ELSE E.blocks[i][3]])
Becomes(s0) == LET n0 == TLCEval(s0) IN Books(n0) /\ Ends(n0) /\ Ids(n0) /\ Agrees(n0) /\ S' = n0
TMake == /\ Is("Make") /\ S' = Fresh(IF E.knows THEN "under" ELSE IF E.track THEN "local" ELSE "none")
         /\ below' = {} /\ RegSame /\ E.name = "below" /\ E.type = 2
TAlloc == /\ Is("Alloc")
          /\ E.passed /\ E.seen = << E.align, E.req >>
          /\ IF E.p = 0 THEN below' = below /\ E.got = 0 /\ RegSame /\ Becomes(S)
             ELSE /\ below' = below \cup {E.p}
                  /\ E.got = E.p
                  /\ RegSame
                  /\ Becomes(Alloc(S, E.p, E.req, E.below, E.idb))
TFree == /\ Is("Free")
         /\ IF E.p = 0 THEN below' = below /\ RegSame /\ Becomes(S)
            ELSE below' = below \ {E.p} /\ RegSame /\ Becomes(Free(S, E.p))
\* the block is handed out again, to somebody else, the moment it is free
TReuse == /\ Is("Reuse")
          /\ E.passed /\ E.got = E.p
          /\ below' = below /\ RegSame
          /\ Becomes(Alloc(Free(S, E.p), E.p, E.req, E.below, E.idb))
TUnref == /\ Is("Unref") /\ E.got = S.recs
          /\ below' = below /\ RegSame /\ Becomes(Unref(S))
TStats == /\ Is("Stats") /\ E.ok /\ UNCHANGED vars
\* several threads at once: only what does not depend on the order
AllAlloc(s0, a0) == FoldLeft(LAMBDA x0, e0 : TLCEval(Alloc(x0, e0[1], e0[2], e0[3], e0[4])), s0, a0)
AllFree(s0, a0) == FoldLeft(LAMBDA x0, e0 : TLCEval(Free(x0, e0)), s0, a0)
CountOf(s0, x0) == Cardinality({i \in 1..Len(s0) : s0[i] = x0})
TThreads == /\ Is("Threads")
  /\ LET s1 == TLCEval(AllAlloc(S, E.made))
         s2 == TLCEval(AllFree(s1, E.freed))
         new == SubSeq(E.recs, Len(S.recs) + 1, Len(E.recs))
         want == SubSeq(s2.recs, Len(S.recs) + 1, Len(s2.recs))
         \* ids are handed out in some order
         live == {<< E.blocks[i][1], E.blocks[i][2], E.blocks[i][3] >> : i \in 1..Len(E.blocks)}
         ids == {E.blocks[i][4] : i \in 1..Len(E.blocks)}
         high == IF S.mode = "none" THEN 0 ELSE Max2(S.high, PeakSeq(new, S.cur, S.cur))
     IN /\ below' = (below \cup {E.made[i][1] : i \in 1..Len(E.made)}) \ {E.freed[i] : i \in 1..Len(E.freed)}
        /\ {E.under[i] : i \in 1..Len(E.under)} = below'
        /\ RegSame /\ ~E.gone
        /\ E.total = s2.total /\ E.cur = s2.cur /\ E.high = high
        /\ Len(new) = Len(want) /\ SubSeq(E.recs, 1, Len(S.recs)) = S.recs
        /\ \A i \in 1..Len(want) : CountOf(new, want[i]) = CountOf(want, want[i])
        /\ (S.mode # "none" => live = {<< q0, s2.live[q0].req, s2.live[q0].size >> : q0 \in DOMAIN s2.live})
        /\ (S.mode = "local" => Cardinality(ids) = Len(E.blocks) /\ \A x0 \in ids : x0 \in 1..s2.next)
        /\ S' = [s2 EXCEPT !.high = high, !.recs = E.recs,
                  !.live = TLCEval([q0 \in DOMAIN @ |-> IF S.mode # "local" THEN @[q0]
                            ELSE [@[q0] EXCEPT !.id = E.blocks[CHOOSE i \in 1..Len(E.blocks) : E.blocks[i][1] = q0][4]]])]

\* ---- the registry
Rest == UNCHANGED << S, below >>
TRegistry == /\ Is("Registry") /\ reg' = << >> /\ froz' = FALSE /\ pickd' = << >> /\ Rest
TRegister == /\ Is("Register")
             /\ LET ok == CanRegister(reg, froz, E.name, E.prio)
                IN /\ E.died = ~ok
                   /\ reg' = IF ok THEN Append(reg, [name |-> E.name, prio |-> E.prio, numa |-> E.numa]) ELSE reg
             /\ UNCHANGED << froz, pickd >> /\ Rest
\* the choice is the best one, is made once, and only then is anything created
TGet == /\ Is("Get")
        /\ LET cand == IF E.sub THEN BestSub(reg) ELSE Best(reg)
               key == << E.sub, E.node >>
           IN IF reg = << >> THEN E.died /\ UNCHANGED << froz, pickd >>
              ELSE /\ ~E.died /\ E.from \in cand /\ froz' = TRUE
                   /\ E.node = E.made
                   /\ IF key \in DOMAIN pickd THEN pickd[key] = << E.from, E.which >> /\ ~E.created /\ UNCHANGED pickd
                      ELSE E.created /\ pickd' = [k0 \in DOMAIN pickd \cup {key} |-> IF k0 = key THEN << E.from, E.which >> ELSE pickd[k0]]
        /\ UNCHANGED reg /\ Rest
TEnd == /\ Is("RegistryEnd") /\ E.left = 0 /\ UNCHANGED vars

\* ---- attributes and memory
TAttr == /\ Is("Attr") /\ UNCHANGED vars
  /\ LET B0 == Bits(E.a) B1 == Bits(E.b) IN
     /\ E.host = (0 \in B0) /\ E.nic = (1 \in B0) /\ E.gpu = (2 \in B0)
     /\ E.less = (B0 \subseteq B1)
     /\ IF E.sa # E.sb /\ E.sa # 0 /\ E.sb # 0 THEN E.died
        ELSE ~E.died /\ Bits(E.m) = Merged(E.a, E.b) /\ E.sm = Max2(E.sa, E.sb)
TSet == /\ Is("SetAttr") /\ UNCHANGED vars
        /\ Bits(E.m) = Bits(E.a) \cup (IF E.v THEN {E.bit} ELSE {})
TVisit == /\ Is("Visit") /\ UNCHANGED vars
          /\ Len(E.got) = E.n /\ \A k0 \in 1..E.n : CountOf(E.got, << k0, E.i, E.size >>) = 1
TMem == /\ Is("Mem") /\ UNCHANGED vars /\ E.aligned /\ E.kept /\ E.isal = (E.off % E.align = 0)

Next == TMake \/ TAlloc \/ TFree \/ TReuse \/ TUnref \/ TStats \/ TThreads \/ TRegistry \/ TRegister \/ TGet \/ TEnd \/ TAttr \/ TSet \/ TVisit \/ TMem
        \/ (TDone /\ UNCHANGED tvars /\ UNCHANGED vars)
=============================================================================
