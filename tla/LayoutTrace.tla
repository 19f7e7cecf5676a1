---------------------------- MODULE LayoutTrace ----------------------------
(* Recorded syntheses with both floor planners.                              *)
EXTENDS Layout, TraceBase
Init == TInit
\* a "fills" entry of the log lists the fills of a table in some order
SameEntry(a, b) == IF a[1] = "fills" THEN b[1] = "fills" /\ Len(b[2]) = Cardinality(a[2]) /\ Range(b[2]) = a[2] ELSE a = b
SameLog(A, B) == Len(A) = Len(B) /\ \A i \in DOMAIN A : SameEntry(A[i], B[i])
Oks(prog) == FlattenSeq([i \in DOMAIN prog |-> IF prog[i].k # "table" THEN << >>
                          ELSE [j \in DOMAIN prog[i].cells |-> CellOk(prog[i].cells, j, Prior(prog, i))]])
TSimple ==
  /\ Is("Simple")
  /\ LET n == NConsts(E.prog)
         die == ~TablesOk(E.prog) \/ (n > 0 /\ E.ccols = << >>)
     IN /\ E.died = die
        /\ die \/ (LET pl == TLCEval(SimplePlan(E.prog, E.ccols))
                       R == RegionsOf(E.prog)
                       cl == [i \in DOMAIN R |-> IF E.ccols = << >> THEN << >> ELSE RegionConsts(R[i].ops, i, pl.st, E.ccols[1], pl.c0[i])]
                   IN /\ NoOverlap(R, pl.st)
                      /\ SameLog(ProgLog(E.prog, pl.st, cl), E.log)
                      /\ E.oks = Oks(E.prog) /\ E.again)
TV1 ==
  /\ Is("V1")
  /\ LET R == RegionsOf(E.prog) st == E.starts
         free == TLCEval(FreeCells(R, st, E.ccols))
         die == ~TablesOk(E.prog) \/ NConsts(E.prog) > Cardinality(free)
     IN /\ Len(st) = Len(R) /\ \A i \in DOMAIN st : st[i] >= 0
        /\ NoOverlap(R, st) /\ Greedy(R, st)
        /\ E.end = EndRow(R, st)
        /\ E.died = die
        /\ die \/ (LET main == TLCEval(ProgLog(E.prog, st, [i \in DOMAIN R |-> << >>]))
                       rest == TLCEval(SubSeq(E.log, Len(main) + 1, Len(E.log)))
                       C == TLCEval(AllConsts(E.prog))
                   IN /\ Len(E.log) >= Len(main) /\ SameLog(main, SubSeq(E.log, 1, Len(main)))
                      /\ Len(rest) = 2 * Len(C)
                      /\ \A i \in DOMAIN C : << rest[2 * i - 1][2], rest[2 * i - 1][3] >> \in free
                           /\ << rest[2 * i - 1], rest[2 * i] >> = ConstLog(C[i][1], C[i][2], st, rest[2 * i - 1][2], rest[2 * i - 1][3])
                      /\ Cardinality({<< rest[2 * i - 1][2], rest[2 * i - 1][3] >> : i \in DOMAIN C}) = Len(C)
                      /\ E.oks = Oks(E.prog) /\ E.again)
Next == TSimple \/ TV1 \/ (TDone /\ UNCHANGED tvars)
=============================================================================
