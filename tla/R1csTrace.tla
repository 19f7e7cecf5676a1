------------------------------- MODULE R1csTrace -------------------------------
(* Histories of R1CS constraint systems, their QAPs and Groth16.  rs: the system   *)
(* as recorded (con: the constraints of the user, full: those after finalising),   *)
(* gz: the keys, gp: the logarithms of the last proof.                             *)
EXTENDS EcTrace, R1cs
LOCAL INSTANCE SequencesExt
VARIABLES rs, gz, gp
rvars == << rs, gz, gp >>
R0 == [q |-> << 7 >>, mode |-> "prove", goal |-> "constraints", ni |-> 1, nw |-> 0, nw0 |-> 0, inst |-> << << 1 >> >>,
       wit |-> << >>, lcs |-> RcNone, con |-> << >>, full |-> << >>, fin |-> FALSE, h |-> << >>]
RInit == Init /\ rs = R0 /\ gz = [ok |-> FALSE] /\ gp = << >>
K == << rs.q, << >> >>
Quiet == Pure /\ UNCHANGED << gz, gp >>
Setup == rs.mode = "setup"
RBegin == Is("Begin") /\ Quiet /\ rs' = [R0 EXCEPT !.q = E.q, !.mode = E.mode, !.goal = E.goal, !.inst = << << 1 >> >>]
RInst == Is("Inst") /\ Quiet /\ E.var = rs.ni /\ E.ran = ~Setup
         /\ rs' = [rs EXCEPT !.ni = @ + 1, !.inst = IF Setup THEN @ ELSE Append(@, E.x)]
RWit == Is("Wit") /\ Quiet /\ E.var = RcW + rs.nw /\ E.ran = ~Setup
        /\ rs' = [rs EXCEPT !.nw = @ + 1, !.nw0 = @ + 1, !.wit = IF Setup THEN @ ELSE Append(@, E.x)]
RLc == Is("Lc") /\ Quiet /\ E.var >= RcS /\ E.var \notin DOMAIN rs.lcs
       /\ LET f == TLCEval(RcForm(K, E.terms, rs.lcs)) lc == rs.lcs
          IN rs' = [rs EXCEPT !.lcs = TLCEval([v \in DOMAIN lc \cup {E.var} |-> IF v \in DOMAIN lc THEN lc[v] ELSE f])]
REnforce == Is("Enforce") /\ Quiet
            /\ E.died = (rs.mode = "nomat")
            /\ LET x == TLCEval([a |-> RcForm(K, E.ta, rs.lcs), b |-> RcForm(K, E.tb, rs.lcs), c |-> RcForm(K, E.tc, rs.lcs)])
               IN rs' = IF E.died THEN rs ELSE [rs EXCEPT !.con = Append(@, x), !.full = Append(@, x)]
RValue == Is("Value") /\ Quiet /\ UNCHANGED rs
          /\ E.x = (IF E.var = -1 THEN << >> ELSE RcVal(K, RcForm(K, << [c |-> << 1 >>, v |-> E.var] >>, rs.lcs), rs.inst, rs.wit))
RCheck == Is("Check") /\ Quiet /\ UNCHANGED rs
          /\ E.ok = (IF Setup THEN FALSE ELSE RcSat(K, rs.con, rs.inst, rs.wit))
          /\ E.ni = rs.ni /\ E.nw = rs.nw /\ E.nc = Len(rs.full)
          /\ E.inst = rs.inst /\ E.wit = rs.wit
Cells(m) == FoldLeft(LAMBDA s, row : s + Len(row), 0, m)
InRange(m, k) == \A i \in DOMAIN m : \A j \in DOMAIN m[i] : m[i][j].i < k /\ m[i][j].c # << >>
\* finalised, and the matrices of the result
RFinal ==
  /\ Is("Final") /\ Quiet
  /\ E.has = (rs.mode # "nomat")
  /\ IF ~E.has
     THEN UNCHANGED rs /\ E.nw = rs.nw /\ E.ni = rs.ni /\ E.nc = 0 /\ E.wit = rs.wit /\ E.inst = rs.inst
     ELSE LET full == TLCEval([i \in 1..Len(E.ma) |-> [a |-> RcRow(K, E.ma[i], rs.ni), b |-> RcRow(K, E.mb[i], rs.ni), c |-> RcRow(K, E.mc[i], rs.ni)]])
              more == Len(full) - Len(rs.con)
              defs == TLCEval(RcDefs(K, full, Len(rs.con), rs.nw0))
          IN /\ Len(E.mb) = Len(E.ma) /\ Len(E.mc) = Len(E.ma)
             /\ E.ni = rs.ni /\ E.nc = Len(E.ma) /\ more >= 0 /\ E.nw = rs.nw0 + more
             /\ E.dims = << E.ni, E.nw, E.nc, Cells(E.ma), Cells(E.mb), Cells(E.mc) >>
             /\ InRange(E.ma, E.ni + E.nw) /\ InRange(E.mb, E.ni + E.nw) /\ InRange(E.mc, E.ni + E.nw)
             /\ RcSame(K, full, rs.con, rs.nw0)
             /\ (rs.goal = "constraints" => more = 0)
             /\ E.inst = rs.inst
             /\ (IF Setup THEN E.wit = << >>
                 ELSE E.wit = SubSeq(rs.wit, 1, rs.nw0) \o [j \in 1..more |-> RcVal(K, defs[RcW + rs.nw0 + j - 1], rs.inst, rs.wit)])
             /\ rs' = [rs EXCEPT !.full = full, !.nw = E.nw, !.wit = E.wit, !.fin = TRUE]
\* the algebra of linear combinations; y is the result, xa and xb the operands
RAlg ==
  /\ Is("Alg") /\ Quiet /\ UNCHANGED rs
  /\ LET KK == << E.q, << >> >>
         a == RcFlat(KK, E.xa) b == RcFlat(KK, E.xb) y == RcFlat(KK, E.y)
         good == RcSorted(E.xa) /\ RcSorted(E.xb)
     IN /\ y = CASE E.how = "add" -> RcAdd(KK, a, b)
                 [] E.how = "sub" -> RcAdd(KK, a, RcNeg(KK, b))
                 [] E.how = "neg" -> RcNeg(KK, a)
                 [] E.how = "scale" -> RcScale(KK, a, E.k)
                 [] E.how = "dedup" -> a
        /\ (good \/ E.how = "dedup" => RcSorted(E.y))
        /\ (E.how = "dedup" => E.sorted)
        /\ {E.y[i].v : i \in DOMAIN E.y} \subseteq {E.xa[i].v : i \in DOMAIN E.xa} \cup {E.xb[i].v : i \in DOMAIN E.xb}
\* order and equality of variables
ROrder == Is("Order") /\ Quiet /\ UNCHANGED rs
          /\ E.lt = (E.x < E.y) /\ E.le = (E.x <= E.y) /\ E.gt = (E.x > E.y) /\ E.ge = (E.x >= E.y) /\ E.eq = (E.x = E.y) /\ E.ne = (E.x # E.y)
-----------------------------------------------------------------------------
N == rs.ni + rs.nw
QInst == Is("QInst") /\ Quiet /\ UNCHANGED rs
         /\ LET ls == TLCEval(QaL(K, E.n, E.w, E.x))
            IN /\ E.n >= Len(rs.full) + rs.ni
               /\ E.t = QaT(K, E.n, E.x)
               /\ E.as = [i \in 1..N |-> QaA(K, rs.full, rs.ni, i - 1, ls)]
               /\ E.bs = [i \in 1..N |-> QaB(K, rs.full, rs.ni, i - 1, ls)]
               /\ E.cs = [i \in 1..N |-> QaC(K, rs.full, rs.ni, i - 1, ls)]
               /\ E.dims = << Len(rs.full), rs.ni, rs.nw, N - 1 >>
\* h is (A B - C) / t, compared at points it does not know (its degree is less than
\* the number of values of the field by far)
QWit == Is("QWit") /\ Quiet
        /\ E.full = QaFull(rs.inst, rs.wit) /\ Len(E.h) <= E.n
        /\ (RcSat(K, rs.full, rs.inst, rs.wit) =>
              /\ Len(PoTrim(K, E.h)) < E.n
              /\ \A i \in DOMAIN E.zs :
                   LET ls == TLCEval(QaL(K, E.n, E.w, E.zs[i])) v == TLCEval(QaABC(K, rs.full, rs.inst, rs.wit, ls))
                   IN TwMul(K, PoEval(K, PoTrim(K, E.h), E.zs[i]), QaT(K, E.n, E.zs[i])) = TwSub(K, TwMul(K, v[1], v[2]), v[3]))
        /\ rs' = [rs EXCEPT !.h = IF Len(E.h) < E.n THEN E.h ELSE SubSeq(E.h, 1, E.n - 1)]
QH == Is("QH") /\ Quiet /\ UNCHANGED rs
      /\ LET cc == TwMul(<< E.q, << >> >>, E.tx, E.di) P1 == TLCEval([i \in 1..E.n |-> BPowMod(E.x, BFromInt(i - 1), E.q)])
         IN Len(E.out) = E.n - 1 /\ \A i \in DOMAIN E.out : E.out[i] = BMulMod(cc, P1[i], E.q)
-----------------------------------------------------------------------------
G1is(x, e) == Good(x) /\ D(x) = Mul(gz'.g, e)
G1s(xs, es) == Len(xs) = Len(es) /\ \A i \in DOMAIN es : G1is(xs[i], es[i])
F2 == << F[1], gz'.ext2 >>
G2is(x, e) == Den(F2, "A", x) = EcMul(F2, gz'.a2, gz'.g2, e)
GKeys ==
  /\ Is("Keys") /\ Pure /\ UNCHANGED << rs, gp >>
  /\ E.ok
  /\ LET ls == TLCEval(QaL(K, E.n, E.w, E.x))
         as == TLCEval([i \in 1..N |-> QaA(K, rs.full, rs.ni, i - 1, ls)])
         bs == TLCEval([i \in 1..N |-> QaB(K, rs.full, rs.ni, i - 1, ls)])
         cs == TLCEval([i \in 1..N |-> QaC(K, rs.full, rs.ni, i - 1, ls)])
         z == TLCEval([ok |-> TRUE, al |-> E.al, be |-> E.be, ga |-> E.ga, de |-> E.de, x |-> E.x, t |-> QaT(K, E.n, E.x),
               as |-> as, bs |-> bs, cs |-> cs, g |-> D(E.g), g2 |-> Den(<< F[1], E.ext2 >>, "A", E.g2), ext2 |-> E.ext2, a2 |-> E.a2])
         gi == TwInv(K, E.ga)
         di == TwInv(K, E.de)
         td == TwMul(K, z.t, di)
     IN /\ gz' = z
        /\ BPowMod(E.w, BFromInt(E.n), rs.q) = << 1 >> /\ z.t # TwZero(K)     \* x is outside the domain
        /\ E.n >= Len(rs.full) + rs.ni
        /\ G1is(E.vkal, E.al) /\ G2is(E.vkbe, E.be) /\ G2is(E.vkga, E.ga) /\ G2is(E.vkde, E.de)
        /\ G1is(E.pkbe, E.be) /\ G1is(E.pkde, E.de)
        /\ G1s(E.vkl, [i \in 1..rs.ni |-> GrMix(K, z, i, gi)])
        /\ G1s(E.pkl, [j \in 1..rs.nw |-> GrMix(K, z, rs.ni + j, di)])
        /\ G1s(E.pka, as) /\ G1s(E.pkb, bs)
        /\ Len(E.pkb2) = N /\ (\A i \in 1..N : G2is(E.pkb2[i], bs[i]))
        /\ Len(E.pkh) = E.n - 1
        /\ G1s(E.pkh, [i \in 1..(E.n - 1) |-> TwMul(K, td, KPw(K, E.x, i - 1))])
GProve ==
  /\ Is("Prove") /\ Pure /\ UNCHANGED << rs, gz >>
  /\ LET full == QaFull(rs.inst, rs.wit)
         pf == TLCEval(<< GrA(K, gz, full, E.rr), GrB(K, gz, full, E.ss), GrC(K, gz, rs.ni, full, rs.h, E.rr, E.ss) >>)
     IN /\ Good(E.pa) /\ D(E.pa) = Mul(gz.g, pf[1])
        /\ Den(<< F[1], gz.ext2 >>, "A", E.pb) = EcMul(<< F[1], gz.ext2 >>, gz.a2, gz.g2, pf[2])
        /\ Good(E.pc) /\ D(E.pc) = Mul(gz.g, pf[3])
        \* a satisfied instance's proof is accepted, by the verifier's own equation
        /\ (RcSat(K, rs.full, rs.inst, rs.wit) => GrAccepts(K, gz, rs.ni, Tail(rs.inst), pf[1], pf[2], pf[3]))
        /\ gp' = pf
GVerify == Is("Verify") /\ Pure /\ UNCHANGED rvars
           /\ E.ok = GrAccepts(K, gz, rs.ni, E.ins, TwAdd(K, gp[1], E.da), TwAdd(K, gp[2], E.db), TwAdd(K, gp[3], E.dc))
\* made anew by someone who does not know the witness: just as good, and different
GRe == Is("ReRandom") /\ Pure /\ UNCHANGED rvars
       /\ E.ok = GrAccepts(K, gz, rs.ni, E.ins, gp[1], gp[2], gp[3])
       /\ ~E.samea /\ ~E.sameb /\ ~E.samec
\* proofs with fresh randomness, or none
GFresh == Is("Fresh") /\ Pure /\ UNCHANGED rvars
          /\ E.ok = RcSat(K, rs.full, rs.inst, rs.wit)
          /\ E.same = (E.how = "nozk")
RNext == \/ RBegin \/ RInst \/ RWit \/ RLc \/ REnforce \/ RValue \/ RCheck \/ RFinal \/ RAlg \/ ROrder \/ QInst \/ QWit \/ QH
         \/ GKeys \/ GProve \/ GVerify \/ GRe \/ GFresh
         \/ TCurve /\ UNCHANGED rvars
         \/ End /\ UNCHANGED rvars
=============================================================================
