------------------------------ MODULE RngTrace ------------------------------
(* Recorded histories of seeded generators: seeding, draws of either size,     *)
(* saving, restoring into another generator, field elements.                   *)
EXTENDS Rng, Hashes, TraceBase
VARIABLES gens
vars == << gens >>
Init == TInit /\ gens = << >>
Set(k0, g0) == gens' = TLCEval([x \in DOMAIN gens \cup {k0} |-> IF x = k0 THEN g0 ELSE gens[x]])
TFresh == /\ Is("Fresh") /\ Set(E.at, Fresh(E.kind))
\* a seed of the wrong size is refused and changes nothing; any other restarts the stream
TSeed == /\ Is("Seed")
         /\ LET good == Len(E.seed) = SeedSize(gens[E.at].kind)
            IN E.ok = good /\ (IF good THEN Set(E.at, FromSeed(gens[E.at].kind, E.seed)) ELSE UNCHANGED gens)
TFrom == /\ Is("FromSeed") /\ Set(E.at, FromSeed(E.kind, E.seed))
Half(x) == << x \div W, x % W >>
\* draws: 4 one word, 8 two words, the earlier one low
TDraw == /\ Is("Draw")
         /\ LET n == FoldLeft(LAMBDA x0, s0 : x0 + s0 \div 4, 0, E.sizes)
                r == TLCEval(Take(gens[E.at], n))
            IN E.words = r[2] /\ Set(E.at, r[1])
TSave == /\ Is("Save") /\ E.ok /\ E.len = E.want /\ Set(E.snap, gens[E.at])
\* restoring continues the stream as it was when saved; a state that is too short, or none a generator
\* can be in, is refused and changes nothing
TLoad == /\ Is("Load")
         /\ IF E.good THEN E.ok /\ Set(E.at, gens[E.from]) ELSE ~E.ok /\ UNCHANGED gens
\* a state in which the lower half of the block counter is about to run over
TNear == /\ Is("Near") /\ Set(E.snap, [gens[E.at] EXCEPT !.ctr = << << 65535, 65535 >>, Half(E.high) >>, !.idx = 16])
TCopy == /\ Is("Copy") /\ Set(E.at, gens[E.from])
Bytes4(w0) == << w0[2] % 256, w0[2] \div 256, w0[1] % 256, w0[1] \div 256 >>
\* a field element: the next 512 bits, little endian, modulo the modulus
TField == /\ Is("Field")
          /\ LET r == TLCEval(Take(gens[E.at], 16))
                 bytes == TLCEval(FoldLeft(LAMBDA x0, w0 : x0 \o Bytes4(w0), << >>, r[2]))
             IN E.v = BMod(FromLE(bytes), E.mod) /\ Set(E.at, r[1])
TUint == /\ Is("Uint") /\ E.v = BMod(FromLE(E.bytes), E.mod) /\ UNCHANGED gens
Next == TFresh \/ TSeed \/ TFrom \/ TDraw \/ TSave \/ TLoad \/ TNear \/ TCopy \/ TField \/ TUint \/ (TDone /\ UNCHANGED tvars /\ UNCHANGED vars)
=============================================================================
