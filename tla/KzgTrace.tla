------------------------------ MODULE KzgTrace ------------------------------
(* Histories of KZG, GWC, SHPlonk and Pedersen commitments.  kz: the parameters  *)
(* in force; pd, pr: the logarithms of the commitments and of the proof elements *)
(* of the last proof.                                                            *)
EXTENDS EcTrace, Kzg
VARIABLES kz, pd, pr
kvars == << kz, pd, pr >>
K0 == [q |-> << 7 >>, n |-> 0, tau |-> << >>, G |-> O, w |-> << 1 >>, sch |-> "kzg", ok |-> FALSE]
KInit == Init /\ kz = K0 /\ pd = << >> /\ pr = << >>
K == << kz.q, << >> >>
G(e) == Mul(kz.G, e)                     \* e times the generator
Roots(q, w, m) == TLCEval([i \in 1..m |-> BPowMod(w, BFromInt(i - 1), q)])
\* do these points represent these exponents of the generator?
Reps(xs, es, gen) == Len(xs) = Len(es) /\ \A i \in DOMAIN es : Good(xs[i]) /\ D(xs[i]) = Mul(gen, es[i])
LagAll(q, w, m, tau) == LET xs == Roots(q, w, m) IN TLCEval([i \in 1..m |-> KLag(<< q, << >> >>, xs, i, tau)])
PowAll(q, m, tau) == TLCEval([i \in 1..m |-> BPowMod(tau, BFromInt(i - 1), q)])
ParamsAre(e, z) == Reps(e.pow, PowAll(z.q, z.n, z.tau), z.G) /\ Reps(e.lag, LagAll(z.q, z.w, z.n, z.tau), z.G)
\* the second group's point is tau times its generator
SecondIs(e, tau) == LET F2 == << F[1], e.ext2 >>
                   IN Den(F2, "A", e.s2) = EcMul(F2, e.a2, Den(F2, "A", e.g2), tau)
TSetup ==
  /\ Is("Setup")
  /\ LET z == [q |-> E.q, n |-> E.n, tau |-> E.tau, G |-> << E.gx, E.gy >>, w |-> E.w, sch |-> E.sch, ok |-> TRUE]
     IN /\ E.ok
        /\ BPowMod(E.w, BFromInt(E.n), E.q) = << 1 >>
        /\ (E.n > 1 => BPowMod(E.w, BFromInt(E.n \div 2), E.q) # << 1 >>)
        /\ ParamsAre(E, z)
        /\ SecondIs(E, E.tau)
        /\ kz' = z
  /\ UNCHANGED evars /\ UNCHANGED << pd, pr >>
\* written, read back, and used from here on
TReload == Is("Reload") /\ ParamsAre(E, kz) /\ SecondIs(E, kz.tau) /\ E.ok /\ Pure /\ UNCHANGED kvars
Value(c, lag) == IF lag THEN LET xs == LagAll(kz.q, kz.w, kz.n, kz.tau) IN KSum(K, Len(c), LAMBDA i : TwMul(K, c[i], xs[i]))
                 ELSE PoEval(K, PoTrim(K, c), kz.tau)
TCommit == Is("Commit") /\ Pure /\ UNCHANGED kvars
           /\ E.ok = (Len(E.c) <= kz.n)
           /\ (E.ok => Good(E.v) /\ D(E.v) = G(Value(E.c, E.lag)))
TBatchCommit == Is("BatchCommit") /\ Pure /\ UNCHANGED kvars
           /\ E.oks = [i \in DOMAIN E.cs |-> TRUE]
           /\ Reps(E.out, [i \in DOMAIN E.cs |-> Value(E.cs[i], E.lag)], kz.G)
           /\ ~E.mode
TDown == Is("Down") /\ Pure /\ UNCHANGED kvars
         /\ E.ok = (E.n < kz.n)
         /\ Reps(E.pow, PowAll(kz.q, IF E.ok THEN E.n ELSE kz.n, kz.tau), kz.G)
TDownLag == Is("DownLag") /\ Pure /\ UNCHANGED kvars
         /\ Reps(E.lag, IF E.ok THEN LagAll(kz.q, E.w, E.n, kz.tau) ELSE LagAll(kz.q, kz.w, kz.n, kz.tau), kz.G)
Ps == [i \in DOMAIN E.ps |-> PoTrim(K, E.ps[i])]
Proof == IF E.sch = "gwc" THEN GwProve(K, Ps, E.os, E.ch[1])
         ELSE LET H == ShHead(K, Ps, E.os, E.ch[1], E.ch[2])
              IN << H, ShQuot(K, Ps, E.os, E.ch[1], E.ch[2], E.ch[3], H) >>
TProve ==
  /\ Is("Prove") /\ Pure /\ UNCHANGED kz
  /\ LET pf == TLCEval(Proof)
         fits == \A i \in DOMAIN pf : Len(pf[i]) <= kz.n
         es == TLCEval([i \in DOMAIN pf |-> PoEval(K, pf[i], kz.tau)])
     IN /\ E.ok = fits
        /\ (fits => /\ Reps(E.pf, es, kz.G)
                    /\ E.order = IF E.sch = "gwc" THEN << "s" >> \o [i \in DOMAIN pf |-> "w"] ELSE << "s", "s", "w", "s", "w" >>)
        /\ pr' = IF fits THEN es ELSE << >>
        /\ pd' = [i \in DOMAIN E.ps |-> PoEval(K, PoTrim(K, E.ps[i]), kz.tau)]
\* an element known as the i-th known one plus e, or e
Known(s, x) == IF x.i = 0 THEN x.e ELSE TwAdd(K, s[x.i], x.e)
TVerify ==
  /\ Is("Verify") /\ Pure /\ UNCHANGED kvars
  /\ LET cs == TLCEval([i \in DOMAIN E.cs |-> Known(pd, E.cs[i])])
         ws == TLCEval([i \in DOMAIN E.pf |-> Known(pr, E.pf[i])])
         need == IF E.sch = "gwc" THEN Len(KXs(E.os)) ELSE 2
         accepts == IF Len(ws) < need THEN FALSE
                    ELSE IF E.sch = "gwc" THEN GwAccepts(K, kz.tau, cs, E.os, E.ch[1], E.ch[2], ws)
                    ELSE ShAccepts(K, kz.tau, cs, E.os, E.ch[1], E.ch[2], E.ch[3], ws[1], ws[2])
     IN /\ E.acc = accepts
        /\ Reps(E.cpts, cs, kz.G)
        /\ Reps(E.wpts, ws, kz.G)
        /\ (accepts => E.order = IF E.sch = "gwc" THEN << "s" >> \o [i \in 1..need |-> "r"] \o << "s" >> ELSE << "s", "s", "r", "s", "r" >>)
-----------------------------------------------------------------------------
Ds(xs) == [i \in DOMAIN xs |-> D(xs[i])]
PedOf(v, rr) == Plus(Mul(D(E.h), rr), EcMsm(F, ab[1], Ds(E.gs), v))
TPed == Is("Ped") /\ Pure /\ UNCHANGED kvars
        /\ E.ok = (Len(E.v) = Len(E.gs))
        /\ (E.ok => Good(E.out) /\ D(E.out) = PedOf(E.v, E.r))
TPedBatch == (Is("PedBatch") \/ Is("PedBlind")) /\ Pure /\ UNCHANGED kvars
        /\ Len(E.out) = Len(E.vs) /\ ~E.mode
        /\ \A i \in DOMAIN E.vs : Good(E.out[i]) /\ D(E.out[i]) = PedOf(E.vs[i], E.rs[i])
KEc == UNCHANGED kvars /\ Next
KNext == KEc \/ TSetup \/ TReload \/ TCommit \/ TBatchCommit \/ TDown \/ TDownLag \/ TProve \/ TVerify \/ TPed \/ TPedBatch
=============================================================================
