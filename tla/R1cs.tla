---------------------------------- MODULE R1cs ---------------------------------
(* Rank-1 constraint systems over a field K, their quadratic arithmetic programs  *)
(* and Groth16 in the exponent.                                                   *)
(*                                                                                *)
(* A linear form is a function from the variables that occur in it to non-zero    *)
(* coefficients: the constant one is 0, instance i is i, witness j is RcW + j, a  *)
(* linear combination made by the user is RcS + its number, the constant zero -1. *)
EXTENDS Kzg
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE FiniteSetsExt
LOCAL INSTANCE TLC
RcW == 1000
RcS == 100000
RcNone == [v \in {} |-> << >>]
RcAt(K, f, v) == IF v \in DOMAIN f THEN f[v] ELSE TwZero(K)
RcClean(K, f) == TLCEval(LET S == TLCEval({v \in DOMAIN f : f[v] # TwZero(K)}) IN [v \in S |-> f[v]])
RcAdd(K, f, h) == RcClean(K, TLCEval([v \in DOMAIN f \cup DOMAIN h |-> TwAdd(K, RcAt(K, f, v), RcAt(K, h, v))]))
RcScale(K, f, x) == RcClean(K, TLCEval([v \in DOMAIN f |-> TwMul(K, f[v], x)]))
RcNeg(K, f) == TLCEval([v \in DOMAIN f |-> TwNeg(K, f[v])])
RcOne(K, v) == [u \in {v} |-> TwOne(K)]
\* the form of a list of terms [c, v], with the user's combinations put in
RcForm(K, terms, lcs) ==
  FoldLeft(LAMBDA acc, x : IF x.v = -1 THEN acc
                           ELSE IF x.v >= RcS THEN RcAdd(K, acc, RcScale(K, lcs[x.v], x.c))
                           ELSE RcAdd(K, acc, RcClean(K, [v \in {x.v} |-> x.c])),
           RcNone, terms)
\* the form of a list of terms as it stands, combinations being variables of their own
RcFlat(K, terms) ==
  FoldLeft(LAMBDA acc, x : IF x.v = -1 THEN acc ELSE RcAdd(K, acc, RcClean(K, [v \in {x.v} |-> x.c])), RcNone, terms)
RcSorted(terms) == \A i \in 1..(Len(terms) - 1) : terms[i].v < terms[i + 1].v
\* its value under an assignment: inst[1] = 1, inst[i+1] instance i, wit[j+1] witness j
RcVar(inst, wit, v) == IF v < RcW THEN inst[v + 1] ELSE wit[v - RcW + 1]
RcVal(K, f, inst, wit) == FoldSet(LAMBDA v, acc : TwAdd(K, acc, TwMul(K, f[v], RcVar(inst, wit, v))), TwZero(K), DOMAIN f)
RcHolds(K, x, inst, wit) == TwMul(K, RcVal(K, x.a, inst, wit), RcVal(K, x.b, inst, wit)) = RcVal(K, x.c, inst, wit)
RcSat(K, con, inst, wit) == \A i \in DOMAIN con : RcHolds(K, con[i], inst, wit)
\* a matrix row: cells [c, i] with i the position of the variable among one,
\* instances, witnesses (ni of the former)
RcRow(K, row, ni) == FoldLeft(LAMBDA acc, x : RcAdd(K, acc, RcClean(K, [v \in {IF x.i < ni THEN x.i ELSE RcW + x.i - ni} |-> x.c])), RcNone, row)
\* forms with the variables in defs (a function from variables to forms over
\* others) replaced
RcSubst(K, f, defs) ==
  FoldSet(LAMBDA v, acc : RcAdd(K, acc, IF v \in DOMAIN defs THEN RcScale(K, defs[v], f[v]) ELSE [u \in {v} |-> f[v]]), RcNone, DOMAIN f)
-----------------------------------------------------------------------------
(* a system `full' of constraints over nw + k witnesses says the same as `con'     *)
(* over nw of them when it is con followed by definitions of the others            *)
RcDefs(K, full, nc, nw) ==
  LET step(acc, i) == IF i <= nc THEN acc
                      ELSE [v \in DOMAIN acc \cup {RcW + nw + i - nc - 1} |-> IF v \in DOMAIN acc THEN acc[v] ELSE TLCEval(RcSubst(K, full[i].a, acc))]
  IN FoldLeft(step, RcNone, [i \in DOMAIN full |-> i])
RcDefines(K, full, nc, nw) ==
  \A i \in DOMAIN full : i > nc => /\ full[i].b = RcOne(K, 0)
                                   /\ full[i].c = RcOne(K, RcW + nw + i - nc - 1)
                                   /\ \A v \in DOMAIN full[i].a : v < RcW + nw + i - nc - 1
RcSame(K, full, con, nw) ==
  /\ Len(full) >= Len(con)
  /\ RcDefines(K, full, Len(con), nw)
  /\ LET defs == TLCEval(RcDefs(K, full, Len(con), nw))
     IN \A i \in DOMAIN con : RcSubst(K, full[i].a, defs) = con[i].a /\ RcSubst(K, full[i].b, defs) = con[i].b
                              /\ RcSubst(K, full[i].c, defs) = con[i].c
-----------------------------------------------------------------------------
(* QAP: the columns of the matrices as polynomials over the n-th roots of unity    *)
(* w^0, w^1, ..., with the instances appended to the A column, at the point x      *)
QaT(K, n, x) == TwSub(K, KPw(K, x, n), TwOne(K))
QaL(K, n, w, x) ==
  LET tn == QaT(K, n, x)
      xs == TLCEval([i \in 1..n |-> KPw(K, w, i - 1)])
  IN TLCEval([i \in 1..n |-> IF x = xs[i] THEN TwOne(K) ELSE IF tn = TwZero(K) THEN TwZero(K)
               ELSE TwMul(K, TwMul(K, xs[i], tn), TwInv(K, TwMul(K, BMod(BFromInt(n), K[1]), TwSub(K, x, xs[i]))))])
QaVar(i, ni) == IF i < ni THEN i ELSE RcW + i - ni
QaA(K, con, ni, i, ls) == LET v == QaVar(i, ni)
                          IN TwAdd(K, KSum(K, Len(con), LAMBDA j : TwMul(K, ls[j], RcAt(K, con[j].a, v))),
                                   IF i < ni THEN ls[Len(con) + i + 1] ELSE TwZero(K))
QaB(K, con, ni, i, ls) == KSum(K, Len(con), LAMBDA j : TwMul(K, ls[j], RcAt(K, con[j].b, QaVar(i, ni))))
QaC(K, con, ni, i, ls) == KSum(K, Len(con), LAMBDA j : TwMul(K, ls[j], RcAt(K, con[j].c, QaVar(i, ni))))
\* the three polynomials of the assignment, at the point where ls was taken
QaFull(inst, wit) == inst \o wit
QaABC(K, con, inst, wit, ls) ==
  << TwAdd(K, KSum(K, Len(con), LAMBDA j : TwMul(K, ls[j], RcVal(K, con[j].a, inst, wit))),
           KSum(K, Len(inst), LAMBDA j : TwMul(K, ls[Len(con) + j], inst[j]))),
     KSum(K, Len(con), LAMBDA j : TwMul(K, ls[j], RcVal(K, con[j].b, inst, wit))),
     KSum(K, Len(con), LAMBDA j : TwMul(K, ls[j], RcVal(K, con[j].c, inst, wit))) >>
-----------------------------------------------------------------------------
(* Groth16: z has the secrets al, be, ga, de, x and the columns as, bs, cs at x    *)
GrMix(K, z, i, inv) == TwMul(K, TwAdd(K, TwAdd(K, TwMul(K, z.be, z.as[i]), TwMul(K, z.al, z.bs[i])), z.cs[i]), inv)
GrA(K, z, full, rr) == TwAdd(K, TwAdd(K, z.al, KSum(K, Len(full), LAMBDA i : TwMul(K, full[i], z.as[i]))), TwMul(K, rr, z.de))
GrB(K, z, full, ss) == TwAdd(K, TwAdd(K, z.be, KSum(K, Len(full), LAMBDA i : TwMul(K, full[i], z.bs[i]))), TwMul(K, ss, z.de))
GrC(K, z, ni, full, h, rr, ss) ==
  LET di == TwInv(K, z.de)
      wsum == KSum(K, Len(full) - ni, LAMBDA j : TwMul(K, full[ni + j], GrMix(K, z, ni + j, di)))
      hx == TwMul(K, TwMul(K, PoEval(K, PoTrim(K, h), z.x), z.t), di)
  IN TwSub(K, TwAdd(K, TwAdd(K, TwAdd(K, wsum, hx), TwMul(K, ss, GrA(K, z, full, rr))), TwMul(K, rr, GrB(K, z, full, ss))),
           TwMul(K, TwMul(K, rr, ss), z.de))
GrAccepts(K, z, ni, ins, A, B, C) ==
  IF Len(ins) # ni - 1 THEN FALSE
  ELSE LET gi == TwInv(K, z.ga)
           pub == TwAdd(K, GrMix(K, z, 1, gi), KSum(K, Len(ins), LAMBDA i : TwMul(K, ins[i], GrMix(K, z, i + 1, gi))))
       IN TwMul(K, A, B) = TwAdd(K, TwAdd(K, TwMul(K, z.al, z.be), TwMul(K, pub, z.ga)), TwMul(K, C, z.de))
=============================================================================
