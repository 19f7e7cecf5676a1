----------------------------- MODULE PoseidonTrace -----------------------------
(* Histories of Poseidon and Poseidon2 instances: how each was generated, and   *)
(* what it made of given states.  c is the configuration the textbook           *)
(* permutation of Poseidon.tla is taken with.                                   *)
EXTENDS Poseidon, TraceBase
VARIABLES F, c
Init == TInit /\ F = << <<2>>, << >> >> /\ c = << >>
Pure == UNCHANGED << F, c >>
Mx(F1, v, n) == TwMul(F1, v, n)
K == << E.nbits, E.w, E.rf, E.rp >>
\* round constants, then matrices to skip, then those of the chosen one
TPoseidon == Is("Poseidon")
  /\ LET n == E.w * (E.rf + E.rp)
         q == TLCEval(GrainBits(K, E.avail))
         rc == TLCEval(GrReject(q, E.p, E.nbits, 1, n))
         at == rc[2] + 2 * E.w * E.skip * E.nbits
         xs == TLCEval(GrModP(q, E.p, E.nbits, at, E.w))
         ys == TLCEval(GrModP(q, E.p, E.nbits, at + E.w * E.nbits, E.w))
         f == << E.p, << >> >>
     IN /\ Len(E.ark) = E.rf + E.rp
        /\ \A i \in 1..Len(E.ark) : E.ark[i] = SubSeq(rc[1], (i - 1) * E.w + 1, i * E.w)
        /\ Len(E.mds) = E.w
        /\ \A i \in 1..E.w : E.mds[i] = [j \in 1..E.w |-> TwInv(f, TwAdd(f, xs[i], ys[j]))]
        /\ E.mds2 = E.mds /\ E.valid
        /\ F' = f /\ c' = [alpha |-> E.alpha, rf |-> E.rf, rp |-> E.rp, ark |-> E.ark, mds |-> E.mds]
TPerm == Is("Perm") /\ E.r = PoseidonPerm(F, c, E.v) /\ E.dir = "absorbing" /\ Pure
TPoseidon2 == Is("Poseidon2")
  /\ LET n == E.w * E.rf + E.rp
         q == TLCEval(GrainBits(K, E.avail))
         rc == TLCEval(GrReject(q, E.p, E.nbits, 1, n))
         h == E.rf \div 2
         f == << E.p, << >> >>
         sh == E.shifts # << >>
         r == IF sh /\ E.mont THEN TwInv(f, TwPow(f, <<2>>, <<32>>)) ELSE TwOne(f)
         diag == IF sh THEN [i \in 1..E.w |-> IF i = 1 THEN TwNeg(f, BMod(<<2>>, E.p)) ELSE TwPow(f, <<2>>, BFromInt(E.shifts[i - 1]))] ELSE E.diag
     IN /\ Len(E.ark) = E.rf + E.rp
        /\ \A i \in 1..Len(E.ark) :
             IF i <= h THEN E.ark[i] = SubSeq(rc[1], (i - 1) * E.w + 1, i * E.w)
             ELSE IF i <= h + E.rp THEN E.ark[i][1] = rc[1][h * E.w + i - h]
             ELSE E.ark[i] = SubSeq(rc[1], (i - E.rp - 1) * E.w + E.rp + 1, (i - E.rp) * E.w + E.rp)
        /\ Len(diag) = E.w
        /\ F' = f /\ c' = [alpha |-> E.alpha, rf |-> E.rf, rp |-> E.rp, ark |-> E.ark, diag |-> diag, scale |-> r, horizen |-> E.horizen]
\* a permutation has an invertible internal layer (the instances the library ships)
TShipped == Is("Shipped") /\ P2Invertible(F, c.diag) /\ Pure
TPerm2 == Is("Perm2") /\ E.r = Poseidon2Perm(F, c, E.v) /\ Pure
TSparse == Is("Sparse")
  /\ LET n == Len(E.row)
         m == [i \in 1..n |-> [j \in 1..n |-> IF i = 1 THEN E.row[j] ELSE IF j = 1 THEN E.col[i - 1] ELSE IF i = j THEN TwOne(F) ELSE TwZero(F)]]
     IN E.m = m /\ E.r = PsMul(F, m, E.v) /\ E.same
  /\ Pure
TExt == Is("Ext") /\ E.m = P2ExtF(F, E.horizen, Len(E.v)) /\ E.r = PsMul(F, E.m, E.v) /\ Pure
TEq == Is("Eq") /\ E.eq = E.same /\ E.ne = ~E.same /\ Pure
Done == TDone /\ UNCHANGED << t, l, F, c >>
Next == TPoseidon \/ TPerm \/ TPoseidon2 \/ TShipped \/ TPerm2 \/ TSparse \/ TExt \/ TEq \/ Done
===============================================================================
