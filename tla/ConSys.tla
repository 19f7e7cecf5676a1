------------------------------- MODULE ConSys -------------------------------
(* A constraint system being configured: columns, selectors, challenges,      *)
(* interned queries, gates, lookups, shuffles, equalities, and the sizes they  *)
(* imply.                                                                      *)
EXTENDS Circuit, SequencesExt
Empty(logd) == [logd |-> logd, nf |-> 0, ni |-> 0, ph |-> << >>, sel |-> << >>, ch |-> << >>,
                f |-> << >>, a |-> << >>, i |-> << >>, perm |-> << >>, consts |-> << >>,
                gates |-> << >>, lookups |-> << >>, trk |-> << >>, shuffles |-> << >>, min |-> 0]
IndexOf(s, x) == IF \E j \in 1..Len(s) : s[j] = x THEN CHOOSE j \in 1..Len(s) : s[j] = x /\ \A k \in 1..j - 1 : s[k] # x ELSE 0
\* asking for a cell: an existing query keeps its number, a new one takes the next
Asked(S, q) == IF IndexOf(S[q[1]], << q[2], q[3] >>) # 0 THEN S ELSE [S EXCEPT ![q[1]] = Append(@, << q[2], q[3] >>)]
QueryNo(S, q) == IndexOf(S[q[1]], << q[2], q[3] >>)
\* numbering the queries of an expression, from left to right
RECURSIVE Numbered(_, _)
Numbered(S, e) ==
  CASE e.t \in {"f", "a", "i"} -> (IF e.q # 0 THEN S ELSE Asked(S, << e.t, e.c, e.r >>))
    [] e.t \in {"-", "."} -> Numbered(S, e.x)
    [] e.t \in {"+", "*"} -> Numbered(Numbered(S, e.x), e.y)
    [] OTHER -> S
NumberedAll(S, es) == FoldLeft(LAMBDA acc, e : Numbered(acc, e), S, es)
\* the expression with the numbers its queries have in S
RECURSIVE WithNumbers(_, _)
WithNumbers(S, e) ==
  CASE e.t \in {"f", "a", "i"} -> (IF e.q # 0 THEN e ELSE [e EXCEPT !.q = QueryNo(S, << e.t, e.c, e.r >>)])
    [] e.t \in {"-", "."} -> [e EXCEPT !.x = WithNumbers(S, @)]
    [] e.t \in {"+", "*"} -> [e EXCEPT !.x = WithNumbers(S, @), !.y = WithNumbers(S, @)]
    [] OTHER -> e
\* the expression without query numbers
RECURSIVE NoNumbers(_)
NoNumbers(e) ==
  CASE e.t \in {"f", "a", "i"} -> [e EXCEPT !.q = 0]
    [] e.t \in {"-", "."} -> [e EXCEPT !.x = NoNumbers(@)]
    [] e.t \in {"+", "*"} -> [e EXCEPT !.x = NoNumbers(@), !.y = NoNumbers(@)]
    [] OTHER -> e
Bare(es) == [j \in 1..Len(es) |-> NoNumbers(es[j])]
\* numbered queries are the ones recorded under their number
RECURSIVE Filed(_, _)
Filed(S, e) ==
  CASE e.t \in {"f", "a", "i"} -> e.q = 0 \/ (e.q <= Len(S[e.t]) /\ S[e.t][e.q] = << e.c, e.r >>)
    [] e.t \in {"-", "."} -> Filed(S, e.x)
    [] e.t \in {"+", "*"} -> Filed(S, e.x) /\ Filed(S, e.y)
    [] OTHER -> TRUE
\* what each advice column is asked at
AdviceCount(S, c) == Len(SelectSeq(S.a, LAMBDA q : q[1] = c))
Opaque(x) == Simples(x) # << >>
Joins(S, q) == IF IndexOf(S.perm, q) # 0 THEN S ELSE [S EXCEPT !.perm = Append(@, q)]
Equal(S, t0, c0) == Joins(Asked(S, << t0, c0, 0 >>), << t0, c0 >>)
\* lookups into one table are tracked together
Tracked(S, tab, ins) ==
  IF \E j \in 1..Len(S.trk) : Bare(S.trk[j].tab) = Bare(tab)
  THEN LET j == CHOOSE j \in 1..Len(S.trk) : Bare(S.trk[j].tab) = Bare(tab) IN [S EXCEPT !.trk[j].ins = Append(@, ins)]
  ELSE [S EXCEPT !.trk = Append(@, [tab |-> tab, ins |-> << ins >>])]
LookedUp(S, tab, ins) == IF S.logd THEN Tracked(S, tab, ins) ELSE [S EXCEPT !.lookups = Append(@, [tab |-> tab, ins |-> << ins >>])]
Sum(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
LookupDegree(a0) == Max2(3 + Len(a0.ins), 2 + Sum([j \in 1..Len(a0.ins) |-> DegOf(a0.ins[j], 1)]) + DegOf(a0.tab, 1))
ShuffleDegree(s) == 2 + Max2(DegOf(s.ins, 1), DegOf(s.tab, 1))
GateDegree(S) == MaxOf({0} \cup UNION { { Deg(S.gates[j][k]) : k \in 1..Len(S.gates[j]) } : j \in 1..Len(S.gates) })
Degree(S) == MaxOf({3, GateDegree(S), IF S.min = 0 THEN 1 ELSE S.min}
                   \cup { LookupDegree(S.lookups[j]) : j \in 1..Len(S.lookups) }
                   \cup { ShuffleDegree(S.shuffles[j]) : j \in 1..Len(S.shuffles) })
Blinding(S) == 2 + MaxOf({3} \cup { AdviceCount(S, c) : c \in 1..Len(S.ph) })
MinRows(S) == Blinding(S) + 3
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Log2Up(x) == CHOOSE k \in 0..30 : Pow2(k) >= x /\ (k = 0 \/ Pow2(k - 1) < x)
ExtendedK(S, k) == k + Log2Up(Degree(S) - 1)
ChunkLen(S) == Degree(S) - 2
Products(S) == (Len(S.perm) + ChunkLen(S) - 1) \div ChunkLen(S)
MaxPhase(S) == MaxOf({0} \cup { S.ph[j] : j \in 1..Len(S.ph) })
\* the bound under which tracked lookups are grouped
ChunkBound(S) ==
  LET single == MaxOf({0} \cup { Max2(3, DegOf(S.trk[j].tab, 0) + 2) + MaxOf({ DegOf(S.trk[j].ins[k], 0) : k \in 1..Len(S.trk[j].ins) }) : j \in 1..Len(S.trk) })
  IN Pow2(Log2Up(Max2(GateDegree(S), single))) + 1
Bounded(S) == IF S.trk = << >> THEN S ELSE [S EXCEPT !.min = Max2(@, ChunkBound(S))]
\* the new arguments cover each table's inputs once each, and grouping keeps the bound
CountIn(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
Chunked(S, args) ==
  /\ \A j \in 1..Len(args) : \E k \in 1..Len(S.trk) : Bare(S.trk[k].tab) = Bare(args[j].tab)
  /\ \A k \in 1..Len(S.trk) :
       LET mine == SelectSeq(args, LAMBDA x : Bare(x.tab) = Bare(S.trk[k].tab))
           got == FoldLeft(LAMBDA acc, x : acc \o x.ins, << >>, mine)
       IN /\ Len(got) = Len(S.trk[k].ins)
          /\ \A j \in 1..Len(got) : CountIn(got, got[j]) = CountIn(S.trk[k].ins, got[j])
  /\ \A j \in 1..Len(args) :
       (Len(args[j].ins) > 1 /\ \A k \in 1..Len(args[j].ins) : DegOf(args[j].ins[k], 0) >= 1) => LookupDegree(args[j]) <= Bounded(S).min
=============================================================================
