----------------------------- MODULE ConSysTrace -----------------------------
(* Recorded configurations of constraint systems.                              *)
EXTENDS ConSys, TraceBase
VARIABLE S
Init == TInit /\ p = << 3 >> /\ r = << >> /\ S = Empty(FALSE)
Same == UNCHANGED << p, r, S >>
Keep == UNCHANGED << p, r >>
TBegin == Is("Begin") /\ p' = E.p /\ r' = r /\ S' = Empty(E.logd)
TCol == /\ Is("Col") /\ Keep
        /\ S' = (CASE E.t = "f" -> [S EXCEPT !.nf = @ + 1]
                   [] E.t = "i" -> [S EXCEPT !.ni = @ + 1]
                   [] E.t = "a" -> (IF E.ph = 0 \/ E.ph - 1 \in Range(S.ph) THEN [S EXCEPT !.ph = Append(@, E.ph)] ELSE S))
        /\ E.idx = (CASE E.t = "f" -> S.nf + 1 [] E.t = "i" -> S.ni + 1
                      [] E.t = "a" -> (IF E.ph = 0 \/ E.ph - 1 \in Range(S.ph) THEN Len(S.ph) + 1 ELSE 0))
TSel == Is("Sel") /\ Keep /\ S' = [S EXCEPT !.sel = Append(@, E.simple)] /\ E.idx = Len(S.sel) + 1
TChal == /\ Is("Chal") /\ Keep
         /\ S' = (IF E.ph \in Range(S.ph) THEN [S EXCEPT !.ch = Append(@, E.ph)] ELSE S)
         /\ E.idx = (IF E.ph \in Range(S.ph) THEN Len(S.ch) + 1 ELSE 0)
TQuery == Is("Query") /\ Keep /\ S' = TLCEval(Asked(S, E.q)) /\ E.idx = QueryNo(S', E.q)
TGet == Is("Get") /\ Same /\ E.idx = QueryNo(S, E.q)
TEqual == Is("Equal") /\ Keep /\ S' = TLCEval(Equal(S, E.t, E.c))
TConst == Is("Const") /\ Keep /\ S' = TLCEval(IF IndexOf(S.consts, E.c) # 0 THEN S ELSE Equal([S EXCEPT !.consts = Append(@, E.c)], "f", E.c))
TMin == Is("Min") /\ Keep /\ S' = [S EXCEPT !.min = Max2(@, E.d)]
TGate == /\ Is("Gate") /\ Keep
         /\ LET S2 == TLCEval(NumberedAll(S, E.pre)) polys == [j \in 1..Len(E.pre) |-> WithNumbers(S2, E.pre[j])]
            IN S' = TLCEval([S2 EXCEPT !.gates = Append(@, polys)])
         /\ Len(E.cells) >= Len(E.asked) /\ SubSeq(E.cells, 1, Len(E.asked)) = E.asked
TLookup ==
  /\ Is("Lookup") /\ Keep
  /\ LET q == [j \in 1..Len(E.tab) |-> << "f", E.tab[j], 0 >>]
         ok == ~\E j \in 1..Len(E.ins) : Opaque(E.ins[j])
         S2 == TLCEval(FoldLeft(LAMBDA acc, j : Numbered(Asked(acc, q[j]), E.ins[j]), S, [j \in 1..Len(E.tab) |-> j]))
     IN /\ E.ok = ok
        /\ S' = TLCEval(IF ok THEN LookedUp(S2, [j \in 1..Len(E.tab) |-> [t |-> "f", c |-> E.tab[j], r |-> 0, q |-> QueryNo(S2, q[j])]], [j \in 1..Len(E.ins) |-> WithNumbers(S2, E.ins[j])]) ELSE S)
TLookupAny == /\ Is("LookupAny") /\ Keep
              /\ E.ok = ~\E j \in 1..Len(E.ins) : Opaque(E.ins[j])
              /\ S' = TLCEval(IF E.ok THEN LookedUp(S, E.tab, E.ins) ELSE S)
TShuffle == Is("Shuffle") /\ Keep /\ S' = [S EXCEPT !.shuffles = Append(@, [tab |-> E.tab, ins |-> E.ins])] /\ E.idx = Len(S.shuffles) + 1
TChunk == /\ Is("Chunk") /\ Keep
          /\ E.ok = S.logd
          /\ LET new == SubSeq(E.lookups, Len(S.lookups) + 1, Len(E.lookups)) IN
               /\ SubSeq(E.lookups, 1, Len(S.lookups)) = S.lookups
               /\ (E.ok => Chunked(S, new)) /\ (~E.ok => new = << >>)
          /\ S' = TLCEval(IF E.ok THEN [Bounded(S) EXCEPT !.lookups = E.lookups] ELSE S)
TSnap ==
  /\ Is("Snap") /\ Same
  /\ E.nf = S.nf /\ E.ni = S.ni /\ E.ph = S.ph /\ E.na = Len(S.ph) /\ E.ch = S.ch /\ E.nh = Len(S.ch)
  /\ E.ns = Len(SelectSeq(S.sel, LAMBDA x : x)) /\ E.nx = Len(SelectSeq(S.sel, LAMBDA x : ~x)) /\ E.nsel = Len(S.sel)
  /\ E.f = S.f /\ E.a = S.a /\ E.i = S.i
  /\ E.count = [c \in 1..Len(S.ph) |-> AdviceCount(S, c)]
  /\ E.perm = S.perm /\ E.consts = S.consts /\ E.min = S.min
  /\ E.gates = S.gates /\ E.lookups = S.lookups /\ E.shuffles = S.shuffles
  /\ Len(E.trk) = Len(S.trk) /\ Range(E.trk) = Range(S.trk)
  /\ \A j \in 1..Len(S.gates) : \A k \in 1..Len(S.gates[j]) : Filed(S, S.gates[j][k])
TSizes ==
  /\ Is("Sizes") /\ Same
  /\ E.degree = Degree(S) /\ E.blinding = Blinding(S) /\ E.last = -(Blinding(S) + 1) /\ E.minrows = MinRows(S)
  /\ E.ext = ExtendedK(S, E.k) /\ E.chunk = ChunkLen(S) /\ E.products = Products(S)
  /\ E.maxph = MaxPhase(S) /\ E.phases = [j \in 1..MaxPhase(S) + 1 |-> j - 1]
  /\ E.ldeg = [j \in 1..Len(S.lookups) |-> LookupDegree(S.lookups[j])]
Next == TBegin \/ TCol \/ TSel \/ TChal \/ TQuery \/ TGet \/ TEqual \/ TConst \/ TMin \/ TGate \/ TLookup \/ TLookupAny \/ TShuffle \/ TChunk \/ TSnap \/ TSizes \/ (TDone /\ UNCHANGED tvars /\ Same)
=============================================================================
