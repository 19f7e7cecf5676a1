--------------------------- MODULE PermutationTrace ---------------------------
(* Recorded histories of copy constraints and of the tables built from them.   *)
EXTENDS Permutation, TraceBase
VARIABLES cl, dim
Init == TInit /\ p = << 3 >> /\ r = << >> /\ cl = Alone(1, 1) /\ dim = << 1, 1 >>
Same == UNCHANGED << p, r, cl, dim >>
TBegin == /\ Is("Begin") /\ p' = E.p /\ r' = r /\ dim' = << E.cols, E.rows >> /\ cl' = TLCEval(Alone(E.cols, E.rows))
          /\ E.argcols = E.cols /\ E.deg = 3
TCopy == /\ Is("Copy") /\ UNCHANGED << p, r, dim >>
         /\ E.merged = (E.a \notin cl[E.b]) /\ E.same
         /\ cl' = TLCEval(Joined(cl, E.a, E.b))
TAsk == /\ Is("Ask") /\ Same
        /\ E.base \in cl[E.a] /\ E.size = Cardinality(cl[E.a]) /\ E.same = (E.b \in cl[E.a])
        /\ E.back /\ Walks(cl, E.a, E.walk) /\ Lists(cl, E.a, E.all)
TBad == Is("Bad") /\ Same /\ E.refused
TPoly == Is("Poly") /\ Same /\ Labels(E.un, E.w, dim[1], dim[2]) /\ Encodes(E.un, E.ps, cl)
TChunks == /\ Is("Chunks") /\ Same
           /\ \A c \in 1..Len(E.got) :
                /\ E.sizes[c] = Len(ChunkOf(E.mark, E.chunk, c))
                /\ E.got[c] = ChunkOf(E.mark, E.chunk, c)
                /\ E.gp[c] = ChunkOf(E.ps, E.chunk, c) /\ E.gu[c] = ChunkOf(E.un, E.chunk, c)
TAt == Is("At") /\ Same /\ E.p = E.ps /\ E.u = E.us
TCount == /\ Is("Count") /\ Same
          /\ E.evals = (IF E.nc = 0 \/ E.g = 0 THEN 0 ELSE E.nc * (2 * E.g + 1))
          /\ E.opens = (IF E.nc = 0 \/ E.g = 0 THEN 0 ELSE E.nc * (3 * E.g - 1) + E.q)
          /\ E.len = E.deg - 2
Next == TBegin \/ TCopy \/ TAsk \/ TBad \/ TPoly \/ TChunks \/ TAt \/ TCount \/ (TDone /\ UNCHANGED tvars /\ Same)
=============================================================================
