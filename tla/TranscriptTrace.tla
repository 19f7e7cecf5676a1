---------------------------- MODULE TranscriptTrace ----------------------------
(* Histories of sponges, challengers and transcripts.  k: which machine, m: its *)
(* state, q: the proof written so far, or still to be read.                     *)
EXTENDS Transcript, TraceBase
VARIABLES P, k, m, q
Init == TInit /\ P = << << <<2>>, << >> >>, << >>, FALSE >> /\ k = [kind |-> "none"] /\ m = << >> /\ q = << >>
Pure == UNCHANGED << P, k, m, q >>
TParams == Is("Params")
  /\ P' = << << E.p, << >> >>,
             IF E.two THEN [alpha |-> E.alpha, rf |-> E.rf, rp |-> E.rp, ark |-> E.ark, diag |-> E.diag, scale |-> <<1>>, horizen |-> E.horizen]
             ELSE [alpha |-> E.alpha, rf |-> E.rf, rp |-> E.rp, ark |-> E.ark, mds |-> E.mds], E.two >>
  /\ UNCHANGED << k, m, q >>
Fresh(e) == CASE e.kind = "sponge" -> SpNew(e.w)
              [] e.kind \in {"duplex", "multi"} -> DcNew(e.w)
              [] e.kind = "hash" -> << e.init, << >> >>
              [] e.kind \in {"pt", "sv"} -> PtNew(e.w)
              [] OTHER -> << >>
TMachine == Is("Machine") /\ k' = E /\ m' = Fresh(E) /\ q' = << >> /\ UNCHANGED P
In(y, x) == CASE k.kind = "sponge" -> SpIn(P, k.cap, k.rate, y, x)
              [] k.kind = "duplex" -> DcIn(P, k.rate, y, x)
              [] k.kind = "multi" -> McIn(P, k.n, k.q, y, x)
              [] k.kind = "hash" -> HcIn(y, x)
              [] k.kind = "simple" -> BAddMod(y, x, k.r)
              [] k.kind = "blake" -> y \o BlScalar(x)
              [] k.kind = "sha" -> y \o ShScalar(x)
              [] k.kind = "pt" -> PtIn(P, y, x)
              [] k.kind = "sv" -> << y[1], Append(y[2], x) >>
Out(y) == CASE k.kind = "sponge" -> SpOut(P, k.cap, k.rate, y)
            [] k.kind = "duplex" -> DcOut(P, y)
            [] k.kind = "multi" -> McOut(P, k.n, k.q, y)
            [] k.kind = "hash" -> HcOut(P, k.w, k.rate, k.out, y)
            [] k.kind = "simple" -> LET z == BAddMod(y, y, k.r) IN << z, z >>
            [] k.kind = "blake" -> BlOut(y, k.r)
            [] k.kind = "sha" -> ShOut(y, k.r)
            [] k.kind = "pt" -> PtOut(P, y)
            [] k.kind = "sv" -> SvOut(P, y)
RECURSIVE Ins(_, _, _)
Ins(y, v, i) == IF i > Len(v) THEN y ELSE Ins(TLCEval(In(y, v[i])), v, i + 1)
RECURSIVE Outs(_, _, _)
Outs(y, n, acc) == IF n = 0 THEN << acc, y >> ELSE LET o == TLCEval(Out(y)) IN Outs(o[2], n - 1, Append(acc, o[1]))
Scalar(x, pr) == BMod(IF pr THEN BMul(x, TwInv(<< k.r, << >> >>, BMod(Two256, k.r))) ELSE x, k.r)
\* a point given to a transcript
PtTo(y, a, b) == CASE k.kind = "simple" -> Ins(y, << Scalar(Mont(a, k.p), TRUE), Scalar(Mont(b, k.p), TRUE) >>, 1)
                   [] k.kind = "blake" -> y \o BlPoint(a, b)
                   [] k.kind = "sha" -> y \o ShPoint(a, b)
                   [] OTHER -> Ins(y, << BMod(a, k.r), BMod(b, k.r) >>, 1)
TIn == Is("In") /\ m' = Ins(m, E.v, 1) /\ UNCHANGED << P, k, q >>
TOut == Is("Out") /\ LET o == Outs(m, Len(E.r), << >>) IN E.r = o[1] /\ m' = o[2] /\ UNCHANGED << P, k, q >>
BitsOf(o, b) == BMod(o, BShl(BOne, b))
TBits == Is("Bits") /\ LET o == TLCEval(Out(m)) IN E.r = BitsOf(o[1], E.b) /\ m' = o[2] /\ UNCHANGED << P, k, q >>
TCheck == Is("Check") /\ LET o == TLCEval(Out(In(m, E.v))) IN E.r = (BitsOf(o[1], E.b) = << >>) /\ m' = o[2] /\ UNCHANGED << P, k, q >>
TSqBytes == Is("SqBytes")
  /\ LET u == (BBitLen(k.r) - 1) \div 8
         o == Outs(m, (E.n + u - 1) \div u, << >>)
     IN E.r = [i \in 1..E.n |-> HByte(o[1][((i - 1) \div u) + 1], (i - 1) % u)] /\ m' = o[2] /\ UNCHANGED << P, k, q >>
TSqBits == Is("SqBits")
  /\ LET u == BBitLen(k.r) - 1
         o == Outs(m, (E.n + u - 1) \div u, << >>)
     IN E.r = [i \in 1..E.n |-> BBit(o[1][((i - 1) \div u) + 1], (i - 1) % u)] /\ m' = o[2] /\ UNCHANGED << P, k, q >>
THash == Is("Hash") /\ E.r = PfHash(P, E.w, E.rate, E.out, E.v) /\ Pure
TCompress == Is("Compress") /\ E.r = TruncPerm(P, E.w, E.chunk, E.v) /\ Pure
TPack == Is("Pack") /\ E.r = BMod(McPack(E.v, 1, Len(E.v)), P[1][1]) /\ Pure
TSplit == Is("Split") /\ E.r = McSplit(E.v, E.q, E.n) /\ Pure
TWide == Is("Wide") /\ E.r = BMod(FromLE(E.v), E.p) /\ Pure
\* writing: E.pf says whether to the proof as well
TSc == Is("Sc") /\ E.ok /\ m' = In(m, E.v) /\ q' = (IF E.pf THEN q \o EncScalar(k, E.v, k.r) ELSE q) /\ UNCHANGED << P, k >>
TPt == Is("Pt") /\ E.ok /\ m' = PtTo(m, E.x, E.y)
  /\ q' = (IF E.pf THEN q \o (IF k.kind = "sha" THEN EncRaw(E.x, E.y)
                              ELSE IF k.kind = "simple" THEN EncScalar(k, E.x, k.p) \o EncScalar(k, E.y, k.p) ELSE EncPoint(k, E.x, E.y)) ELSE q)
  /\ UNCHANGED << P, k >>
TRaw == Is("Raw") /\ m' = m \o E.v /\ UNCHANGED << P, k, q >>
TDigest == Is("Digest") /\ E.r = (IF k.kind = "blake" THEN Blake2b(m, Personal) ELSE Sha256(m)) /\ Pure
\* the state was copied to a new transcript, which goes on
TState == Is("State") /\ E.len = E.got /\ Pure
TProof == Is("Proof") /\ E.v = q /\ Pure
\* a reader of the proof, or of something else
TReader == Is("Reader") /\ m' = Fresh(k) /\ q' = E.v /\ UNCHANGED << P, k >>
Take(n) == SubSeq(q, 1, n)
Drop(n) == SubSeq(q, n + 1, Len(q))
DecScalar(b, p) == LET x == FromLE(b) IN IF ~BLess(x, p) THEN << FALSE, << >> >>
                   ELSE << TRUE, IF k.mont THEN BMod(BMul(x, TwInv(<< p, << >> >>, BMod(Two256, p))), p) ELSE x >>
TRSc == Is("RSc")
  /\ UNCHANGED << P, k >>
  /\ IF Len(q) < 32 THEN ~E.ok /\ UNCHANGED << m, q >>
     ELSE LET d == DecScalar(Take(32), k.r)
          IN /\ E.ok = d[1]
             /\ IF E.ok THEN E.v = d[2] /\ m' = In(m, E.v) /\ q' = Drop(32) ELSE UNCHANGED << m, q >>
\* what 32 bytes mean as a compressed point: the one whose encoding they are
G == << k.p, << >> >>
Rhs(x) == TwAdd(G, TwMul(G, TwMul(G, x, x), x), k.b)
Square(z) == z = << >> \/ TwPow(G, z, BShr(BSub(k.p, BOne), 1)) = TwOne(G)
Valid(x, y) == IF x = << >> /\ y = << >> THEN TRUE ELSE BLess(x, k.p) /\ BLess(y, k.p) /\ TwMul(G, y, y) = Rhs(x)
PtLen == IF k.kind \in {"sha", "simple"} THEN 64 ELSE 32
Compressed(b) ==
  LET x == FromLE([b EXCEPT ![32] = @ % (IF k.legacy THEN 128 ELSE 64)])
      fl == b[32] \div (IF k.legacy THEN 128 ELSE 64)
  IN IF x = << >> /\ (k.legacy \/ fl >= 2) THEN << fl = (IF k.legacy THEN 0 ELSE 2), TRUE, x >>
     ELSE << fl < 2 /\ BLess(x, k.p) /\ Square(Rhs(x)), FALSE, x >>
TRPt == Is("RPt")
  /\ UNCHANGED << P, k >>
  /\ IF Len(q) < PtLen THEN ~E.ok /\ UNCHANGED << m, q >>
     ELSE /\ IF k.kind = "sha" THEN LET x == FromLE(Take(32)) y == FromLE(SubSeq(q, 33, 64)) IN E.ok = (BLess(x, k.p) /\ BLess(y, k.p) /\ Valid(x, y)) /\ (E.ok => E.x = x /\ E.y = y)
             ELSE IF k.kind = "simple" THEN LET x == DecScalar(Take(32), k.p) y == DecScalar(SubSeq(q, 33, 64), k.p) IN E.ok = (x[1] /\ y[1]) /\ (E.ok => E.x = x[2] /\ E.y = y[2])
             ELSE LET d == Compressed(Take(32)) IN E.ok = d[1] /\ (E.ok => IF d[2] THEN E.x = << >> /\ E.y = << >> ELSE E.x = d[3] /\ Valid(E.x, E.y) /\ EncPoint(k, E.x, E.y) = Take(32))
          /\ IF E.ok THEN m' = PtTo(m, E.x, E.y) /\ q' = Drop(PtLen) ELSE UNCHANGED << m, q >>
Done == TDone /\ UNCHANGED << t, l, P, k, m, q >>
Next == TParams \/ TMachine \/ TIn \/ TOut \/ TBits \/ TCheck \/ TSqBytes \/ TSqBits \/ THash \/ TCompress \/ TPack \/ TSplit \/ TWide
        \/ TSc \/ TPt \/ TRaw \/ TDigest \/ TState \/ TProof \/ TReader \/ TRSc \/ TRPt \/ Done
================================================================================
