------------------------------ MODULE BufferTrace ------------------------------
(* Histories of real buffers: every event reports the whole content, cursor,    *)
(* length and byte order of every buffer after it.                              *)
EXTENDS Buffer, TraceBase
VARIABLES bufs, scope
bvars == << bufs, scope >>
Init == TInit /\ bufs = << >> /\ scope = << >>

Shown(B, s) == s.b = B.b /\ s.o = B.o /\ s.e = B.e /\ s.n = Len(B.b) /\ s.done = (B.o = Len(B.b))
Seen == /\ Len(E.st) = Len(bufs') /\ \A i \in 1..Len(bufs') : Shown(bufs'[i], E.st[i])
        /\ E.guard
Cur == bufs[E.i]
At == IF E.at THEN E.off ELSE Cur.o
Put(B) == bufs' = [bufs EXCEPT ![E.i] = B]

TNew == Is("New") /\ UNCHANGED scope /\ bufs' = Append(bufs, [k |-> E.kind, b |-> E.b, o |-> 0, e |-> "n"]) /\ Seen
TEndian == Is("Endian") /\ UNCHANGED scope /\ Put([Cur EXCEPT !.e = E.e]) /\ Seen
TPush == Is("Push") /\ scope' = Append(scope, << E.i, Cur.e >>) /\ Put([Cur EXCEPT !.e = E.e]) /\ Seen
TPop == /\ Is("Pop") /\ Len(scope) > 0
        /\ LET x == scope[Len(scope)] IN bufs' = [bufs EXCEPT ![x[1]].e = x[2]]
        /\ scope' = SubSeq(scope, 1, Len(scope) - 1) /\ Seen
TSeek == Is("Seek") /\ UNCHANGED scope /\ Put([Cur EXCEPT !.o = E.off]) /\ Seen
(* raw bytes and builtins: all or nothing *)
TWrite1 == /\ Is("Write1") /\ UNCHANGED scope
           /\ LET w == Enc(E.v, E.ord) IN
              /\ E.ok = CanWrite(Cur, At, Len(w))
              /\ Put(IF E.ok THEN AfterWrite(Cur, At, w) ELSE Cur)
           /\ Seen
TRead1 == /\ Is("Read1") /\ UNCHANGED scope
          /\ LET n == Len(E.v[2]) IN
             /\ E.ok = CanRead(Cur, At, n)
             /\ Put(IF E.ok THEN [Cur EXCEPT !.o = At + n] ELSE Cur)
             /\ IF E.ok THEN Ord(E.v[2], E.ord) = SubSeq(Cur.b, At + 1, At + n) ELSE E.kept
          /\ Seen
TReadPtr == /\ Is("ReadPtr") /\ UNCHANGED scope
            /\ E.ok = (E.n >= 0 /\ CanRead(Cur, At, E.n * E.w))
            /\ Put(IF E.ok THEN [Cur EXCEPT !.o = At + E.n * E.w] ELSE Cur)
            /\ (E.ok => E.b = SubSeq(Cur.b, At + 1, At + E.n * E.w))
            /\ Seen
(* composite values: a failure may leave a prefix of the encoding behind *)
TWrite == /\ Is("Write") /\ UNCHANGED scope
          /\ LET w == Enc(E.v, Cur.e) IN
             /\ E.est = Len(w)
             /\ E.ok = CanWrite(Cur, At, Len(w))
              /\ IF E.ok THEN Put(AfterWrite(Cur, At, w))
                ELSE LET o == E.st[E.i].o
                         k == IF At < 0 \/ o < At \/ (o = Cur.o /\ E.st[E.i].b = Cur.b) THEN 0 ELSE BufMin(o - At, Len(w))
                     IN Put([Cur EXCEPT !.b = (IF k = 0 THEN Cur.b ELSE Over(Cur.b, At, SubSeq(w, 1, k))), !.o = o])
          /\ Seen
TRead == /\ Is("Read") /\ UNCHANGED scope
         /\ LET z == IF At < 0 \/ At > Len(Cur.b) THEN -1 ELSE End(E.ty, Cur.b, At, Cur.e) IN
            /\ E.ok = (z >= 0)
            /\ (E.ok => Enc(E.v, Cur.e) = SubSeq(Cur.b, At + 1, z))
            /\ (E.ok => E.st[E.i].o = z)
            /\ Put([Cur EXCEPT !.o = E.st[E.i].o])
         /\ Seen
(* what was written reads back equal, as the program sees it *)
TSame == Is("Same") /\ UNCHANGED scope /\ E.eq /\ UNCHANGED bufs
TMove == /\ Is("Move") /\ UNCHANGED scope /\ E.i # E.j
         /\ bufs' = [bufs EXCEPT ![E.j] = [bufs[E.i] EXCEPT !.k = bufs[E.j].k],
                                 ![E.i] = [Empty(bufs[E.i].k) EXCEPT !.e = E.st[E.i].e]]
         /\ Seen
TTake == /\ Is("Take") /\ UNCHANGED scope /\ E.b = Cur.b
         /\ Put([Empty(Cur.k) EXCEPT !.e = E.st[E.i].e]) /\ Seen
Fin == TDone /\ UNCHANGED << t, l, bufs, scope >>
Next == TNew \/ TEndian \/ TPush \/ TPop \/ TSeek \/ TWrite1 \/ TRead1 \/ TReadPtr \/ TWrite \/ TRead \/ TSame \/ TMove \/ TTake \/ Fin
=============================================================================
