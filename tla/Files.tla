------------------------------- MODULE Files -------------------------------
(* Path algebra, the file-system tree and open file handles (C34).            *)
(* A path is a byte sequence.  A tree is a function from locations (sequences *)
(* of names below the root of the tree) to nodes [t, v]: "d"irectory, "f"ile  *)
(* with content v, or "l"ink with target v.  The root of the tree is the      *)
(* current directory, whose absolute path is Bs.                              *)
EXTENDS Text, FiniteSets, SequencesExt
LOCAL INSTANCE TLC

SL == 47
DT == 46
\* ----------------------------------------------------------- path algebra
LastOf(s, c) == LET I0 == {i \in 1..Len(s) : s[i] = c} IN IF I0 = {} THEN 0 ELSE CHOOSE i \in I0 : \A j \in I0 : j <= i
RECURSIVE Split(_, _, _)
Split(s, i, cur) == IF i > Len(s) THEN (IF cur = << >> THEN << >> ELSE << cur >>)
                    ELSE IF s[i] = SL THEN (IF cur = << >> THEN << >> ELSE << cur >>) \o Split(s, i + 1, << >>)
                    ELSE Split(s, i + 1, Append(cur, s[i]))
Names(s) == Split(s, 1, << >>)
Abs(s) == s # << >> /\ s[1] = SL
Comps(s) == (IF Abs(s) THEN << << SL >> >> ELSE << >>) \o Names(s)
DirName(s) == LET k0 == LastOf(s, SL) IN IF k0 = 0 THEN << >> ELSE IF k0 = 1 THEN << SL >> ELSE Sub(s, 1, k0 - 1)
BaseName(s) == From(s, LastOf(s, SL) + 1)
IsRoot(s) == s # << >> /\ \A i \in 1..Len(s) : s[i] = SL
EndSep(s) == s # << >> /\ s[Len(s)] = SL
AsEndSep(s) == IF s = << >> \/ EndSep(s) THEN s ELSE Append(s, SL)
StripSep(s) == IF s = << >> THEN s ELSE IF IsRoot(s) THEN << SL >> ELSE LET k0 == CHOOSE k0 \in 1..Len(s) : s[k0] # SL /\ \A j \in (k0 + 1)..Len(s) : s[j] = SL IN Sub(s, 1, k0)
PAppend(s, c0) == IF Abs(c0) THEN << >> ELSE IF s = << >> THEN c0 ELSE IF EndSep(s) THEN s \o c0 ELSE s \o << SL >> \o c0
Parental(s) == \E i \in 1..Len(Names(s)) : Names(s)[i] = << DT, DT >>
IsPrefix0(a, b) == Len(a) <= Len(b) /\ Sub(b, 1, Len(a)) = a
IsParent(a, b) == LET x == Comps(a) y == Comps(b) IN x # << >> /\ Len(x) < Len(y) /\ IsPrefix0(x, y)
RelTo(a, b) == Join(From(Comps(b), Len(Comps(a)) + 1), << SL >>)
Special(b) == b \in {<< DT >>, << DT, DT >>}
Doubles == { << 98, 122 >>, << 98, 122, 50 >>, << 103, 122 >>, << 108, 122 >>, << 108, 122, 109, 97 >>, << 108, 122, 111 >>, << 120, 122 >>, << 122 >>, << 122, 115, 116 >> }
FinalDot(b) == IF Special(b) THEN 0 ELSE LastOf(b, DT)
ExtDot(b) == LET z == FinalDot(b)
                 y == IF z <= 1 THEN 0 ELSE LastOf(Sub(b, 1, z - 1), DT)
             IN IF y # 0 /\ LowerS(From(b, z + 1)) \in Doubles /\ (z - y) \in 2..5 THEN y ELSE z
Ext(s) == LET b == BaseName(s) k0 == ExtDot(b) IN IF k0 = 0 THEN << >> ELSE From(b, k0)
FinalExt(s) == LET b == BaseName(s) k0 == FinalDot(b) IN IF k0 = 0 THEN << >> ELSE From(b, k0)
NoExt(s) == Sub(s, 1, Len(s) - Len(Ext(s)))
NoFinalExt(s) == Sub(s, 1, Len(s) - Len(FinalExt(s)))
InsertExt(s, x) == IF x = << >> THEN s ELSE IF BaseName(s) = << >> \/ Special(BaseName(s)) THEN << >> ELSE NoExt(s) \o x \o Ext(s)
\* lexical resolution
RECURSIVE Lex(_, _)
Lex(acc, cs) == IF cs = << >> THEN acc
                ELSE Lex(IF cs[1] = << DT >> THEN acc ELSE IF cs[1] = << DT, DT >> THEN (IF acc = << >> THEN acc ELSE Front(acc)) ELSE Append(acc, cs[1]), Tail(cs))
AbsPath(ns) == << SL >> \o Join(ns, << SL >>)
LexAbs(bs, s) == AbsPath(Lex(IF Abs(s) THEN << >> ELSE Names(bs), Names(s)))

\* ------------------------------------------------------------- resolution
NoEnt == [r |-> "noent", loc |-> << >>, ex |-> FALSE]
NotDir == [r |-> "notdir", loc |-> << >>, ex |-> FALSE]
Loop == [r |-> "loop", loc |-> << >>, ex |-> FALSE]
Out == [r |-> "out", loc |-> << >>, ex |-> FALSE]
Found(p0, e0) == [r |-> "ok", loc |-> p0, ex |-> e0]
\* where an absolute or relative path starts
RECURSIVE Walk(_, _, _, _, _, _)
Start(N, bs, s, rest, here, fol, n) ==
  IF Abs(s) THEN (IF IsPrefix0(Names(bs), Names(s)) THEN Walk(N, bs, << >>, From(Names(s), Len(Names(bs)) + 1) \o rest, fol, n) ELSE Out)
  ELSE Walk(N, bs, here, Names(s) \o rest, fol, n)
Walk(N, bs, here, cs, fol, n) ==
  IF cs = << >> THEN Found(here, TRUE)
  ELSE IF cs[1] = << DT >> THEN Walk(N, bs, here, Tail(cs), fol, n)
  ELSE IF cs[1] = << DT, DT >> THEN (IF here = << >> THEN Out ELSE Walk(N, bs, Front(here), Tail(cs), fol, n))
  ELSE LET c0 == Append(here, cs[1]) last == Len(cs) = 1
       IN IF c0 \notin DOMAIN N THEN (IF last THEN Found(c0, FALSE) ELSE NoEnt)
          ELSE IF N[c0].t = "l" /\ (~last \/ fol) THEN (IF n = 0 THEN Loop ELSE Start(N, bs, N[c0].v, Tail(cs), here, fol, n - 1))
          ELSE IF last THEN Found(c0, TRUE)
          ELSE IF N[c0].t = "f" THEN NotDir
          ELSE Walk(N, bs, c0, Tail(cs), fol, n)
Res(F0, s, fol) == IF s = << >> THEN NoEnt ELSE Start(F0.n, F0.b, s, << >>, << >>, fol, 40)

There(w) == w.r = "ok" /\ w.ex
Kind(F0, s) == LET w == Res(F0, s, TRUE) IN IF There(w) THEN F0.n[w.loc].t ELSE "none"
LKind(F0, s) == LET w == Res(F0, s, FALSE) IN IF There(w) THEN F0.n[w.loc].t ELSE "none"
Data(F0, s) == F0.n[Res(F0, s, TRUE).loc].v
Put(F0, p0, nd) == TLCEval([F0 EXCEPT !.n = TLCEval([q0 \in DOMAIN F0.n \cup {p0} |-> IF q0 = p0 THEN nd ELSE F0.n[q0]])])
Drop(F0, ps) == TLCEval([F0 EXCEPT !.n = TLCEval([q0 \in DOMAIN F0.n \ ps |-> F0.n[q0]])])
Under(F0, p0) == {q0 \in DOMAIN F0.n : IsPrefix0(p0, q0)}
Children(F0, p0) == {q0 \in DOMAIN F0.n : Len(q0) = Len(p0) + 1 /\ IsPrefix0(p0, q0)}
Dir == [t |-> "d", v |-> << >>]
File(d0) == [t |-> "f", v |-> d0]
Rs(ok, F0) == [ok |-> ok, F |-> F0]
HasLinks(F0) == \E p0 \in DOMAIN F0.n : F0.n[p0].t = "l"
\* some link of the tree leads to a directory
DirLinks(F0) == \E p0 \in DOMAIN F0.n : F0.n[p0].t = "l" /\ Kind(F0, Join(p0, << SL >>)) = "d"
LinkUnder(F0, s) == LET w == Res(F0, s, FALSE) IN There(w) /\ \E p0 \in Under(F0, w.loc) : F0.n[p0].t = "l"

\* ------------------------------------------------------------- operations
Write(F0, s, d0) == LET w == Res(F0, s, TRUE)
  IN IF w.r = "ok" /\ (w.ex => F0.n[w.loc].t = "f") THEN Rs(TRUE, Put(F0, w.loc, File(d0))) ELSE Rs(FALSE, F0)
AppendTo(F0, s, d0) == IF Kind(F0, s) = "f" THEN Rs(TRUE, Put(F0, Res(F0, s, TRUE).loc, File(Data(F0, s) \o d0))) ELSE Rs(FALSE, F0)
\* every prefix of the path that is not a directory is made one
RECURSIVE MkAll(_, _)
PathUps(s) == LET RECURSIVE Up(_)
                   Up(x) == IF x = << >> THEN << >> ELSE IF DirName(x) = x THEN << x >> ELSE Append(Up(DirName(x)), x)
               IN Up(s)
MkAll(F0, ps) == IF ps = << >> THEN [ok |-> TRUE, F |-> F0, err |-> 0]
  ELSE IF Kind(F0, ps[1]) = "d" \/ (Abs(ps[1]) /\ IsPrefix0(Names(ps[1]), Names(F0.b))) THEN MkAll(F0, Tail(ps))
  ELSE LET w == Res(F0, ps[1], FALSE)
       IN IF w.r = "ok" /\ ~w.ex THEN MkAll(Put(F0, w.loc, Dir), Tail(ps))
          ELSE [ok |-> FALSE, F |-> F0, err |-> IF w.r = "ok" THEN -3 ELSE IF w.r = "noent" THEN -4 ELSE IF w.r = "notdir" THEN -9 ELSE -1]
MkDir(F0, s) == MkAll(F0, IF s = << >> THEN << s >> ELSE PathUps(s))
Delete(F0, s, rec) == LET w == Res(F0, s, FALSE)
  IN IF w.r = "noent" \/ (w.r = "ok" /\ ~w.ex) THEN Rs(TRUE, F0)
     ELSE IF w.r # "ok" THEN Rs(FALSE, F0)
     ELSE IF F0.n[w.loc].t # "d" THEN Rs(TRUE, Drop(F0, {w.loc}))
     ELSE IF rec \/ Under(F0, w.loc) = {w.loc} THEN Rs(TRUE, Drop(F0, Under(F0, w.loc)))
     ELSE Rs(FALSE, F0)
Rename(F0, a, b) == LET x == Res(F0, a, FALSE) y == Res(F0, b, FALSE)
  IN IF ~There(x) \/ y.r # "ok" \/ x.loc = << >> \/ y.loc = << >> THEN Rs(FALSE, F0)
     ELSE IF x.loc = y.loc THEN Rs(TRUE, F0)
     ELSE LET dir == F0.n[x.loc].t = "d"
          IN IF dir /\ IsPrefix0(x.loc, y.loc) THEN Rs(FALSE, F0)
             ELSE IF y.ex /\ (IF dir THEN F0.n[y.loc].t # "d" \/ Under(F0, y.loc) # {y.loc} ELSE F0.n[y.loc].t = "d") THEN Rs(FALSE, F0)
             ELSE LET mv == Under(F0, x.loc)
                      G == Drop(F0, mv)
                      to(q0) == y.loc \o From(q0, Len(x.loc) + 1)
                  IN Rs(TRUE, [G EXCEPT !.n = [q0 \in DOMAIN G.n \cup {to(m0) : m0 \in mv} |->
                        IF IsPrefix0(y.loc, q0) THEN F0.n[x.loc \o From(q0, Len(y.loc) + 1)] ELSE G.n[q0]]])
CopyFile(F0, a, b) ==
  IF Parental(a) \/ Parental(b) \/ Kind(F0, a) # "f" THEN Rs(FALSE, F0)
  ELSE IF There(Res(F0, b, TRUE)) /\ Res(F0, b, TRUE).loc = Res(F0, a, TRUE).loc THEN Rs(FALSE, F0)
  ELSE Write(F0, b, Data(F0, a))
\* one entry of a copied directory: source location (already resolved), target path
CopyOne(F0, src, k0, b, excl) ==
  LET y == Res(F0, b, TRUE) x == Res(F0, b, FALSE)
  IN IF There(y) /\ y.loc = src THEN Rs(FALSE, F0)
     ELSE IF k0 = "d" THEN IF x.r = "ok" /\ ~x.ex THEN Rs(TRUE, Put(F0, x.loc, Dir))
                           ELSE Rs(~excl /\ Kind(F0, b) = "d", F0)
     ELSE IF k0 = "l" THEN Rs(TRUE, F0)
     ELSE IF excl THEN (IF x.r = "ok" /\ ~x.ex THEN Rs(TRUE, Put(F0, x.loc, File(F0.n[src].v))) ELSE Rs(FALSE, F0))
     ELSE Write(F0, b, F0.n[src].v)
RECURSIVE CopyEach(_, _, _, _, _)
CopyEach(F0, src, rels, b, excl) ==
  IF rels = << >> THEN Rs(TRUE, F0)
  ELSE LET p0 == src \o rels[1]
           r0 == CopyOne(F0, p0, F0.n[p0].t, IF rels[1] = << >> THEN b ELSE PAppend(b, Join(rels[1], << SL >>)), excl)
       IN IF r0.ok THEN CopyEach(r0.F, src, Tail(rels), b, excl) ELSE r0
RECURSIVE Shortest(_)
Shortest(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : \A y \in S : Len(x) <= Len(y) IN << x >> \o Shortest(S \ {x})
CopyDir(F0, a, b, rec, excl) ==
  LET x == Res(F0, a, TRUE)
      y == Res(F0, IF Kind(F0, b) # "none" THEN b ELSE IF DirName(b) = << >> THEN << DT >> ELSE DirName(b), TRUE)
  IN IF ~There(x) \/ ~There(y) \/ IsPrefix0(x.loc, y.loc) THEN Rs(FALSE, F0)
     ELSE LET tgt == IF rec /\ Kind(F0, b) = "d" THEN PAppend(b, BaseName(a)) ELSE b
              all == IF F0.n[x.loc].t # "d" THEN {x.loc} ELSE IF rec THEN Under(F0, x.loc) ELSE {x.loc} \cup {p0 \in Children(F0, x.loc) : F0.n[p0].t # "d"}
              ord == Shortest({From(p0, Len(x.loc) + 1) : p0 \in all})
          IN CopyEach(F0, x.loc, ord, tgt, excl)
\* what is known of the place a failed copy may have changed
Touched(F0, b) == LET y == Res(F0, b, TRUE) IN IF y.r = "ok" THEN y.loc ELSE << >>
MovePlain(F0, a, b) ==  \* [how, ok, F]
  IF Parental(a) \/ Parental(b) THEN [how |-> "no", ok |-> FALSE, F |-> F0]
  ELSE IF Kind(F0, b) # "none" /\ (Kind(F0, a) = "none" \/ (Kind(F0, a) = "d") # (Kind(F0, b) = "d")) THEN [how |-> "no", ok |-> FALSE, F |-> F0]
  ELSE LET r0 == Rename(F0, a, b)
       IN IF r0.ok THEN [how |-> "rename", ok |-> TRUE, F |-> r0.F]
          ELSE LET c0 == CopyDir(F0, a, b, TRUE, FALSE)
               IN IF ~c0.ok THEN [how |-> "copy", ok |-> FALSE, F |-> F0]
                  ELSE [how |-> "copy", ok |-> TRUE, F |-> Delete(c0.F, a, TRUE).F]
\* ------------------------------------------------------------ enumeration
RECURSIVE Glob(_, _)
Glob(pt, s) == IF pt = << >> THEN s = << >>
               ELSE IF pt[1] = 42 THEN Glob(Tail(pt), s) \/ (s # << >> /\ Glob(pt, Tail(s)))
               ELSE s # << >> /\ (pt[1] = 63 \/ pt[1] = s[1]) /\ Glob(Tail(pt), Tail(s))
Matches(pt, s) == pt = << >> \/ Glob(pt, s)
\* names relative to the enumerated directory; ty is a set of {"files","dirs","links"}
Enum(F0, s, rec, ty, pt, all) ==
  IF Kind(F0, s) # "d" THEN {}
  ELSE LET x == Res(F0, s, TRUE).loc
           under == IF rec THEN Under(F0, x) \ {x} ELSE Children(F0, x)
           rel(p0) == From(p0, Len(x) + 1)
           isd(p0) == IF F0.n[p0].t = "l" THEN "links" \notin ty /\ Kind(F0, Join(p0, << SL >>)) = "d" ELSE F0.n[p0].t = "d"
           shown(p0) == IF all \/ Len(rel(p0)) = 1 THEN Matches(pt, p0[Len(p0)]) ELSE Matches(pt, rel(p0)[1])
       IN {rel(p0) : p0 \in {p1 \in under : (IF isd(p1) THEN "dirs" ELSE "files") \in ty /\ shown(p1)}}
RECURSIVE SumSizes(_, _)
SumSizes(F0, ps) == IF ps = {} THEN 0 ELSE LET p0 == CHOOSE p0 \in ps : TRUE IN
  (IF F0.n[p0].t = "f" THEN Len(F0.n[p0].v)
   ELSE IF F0.n[p0].t = "l" /\ Kind(F0, Join(p0, << SL >>)) = "f" THEN Len(Data(F0, Join(p0, << SL >>))) ELSE 0) + SumSizes(F0, ps \ {p0})
DirSize(F0, s) == IF Kind(F0, s) # "d" THEN 0 ELSE SumSizes(F0, Under(F0, Res(F0, s, TRUE).loc))
Numbered(s, n) == InsertExt(s, << 32, 40 >> \o DecOf(n) \o << 41 >>)
UniqueNo(F0, s) == IF Kind(F0, s) = "none" THEN 0
                   ELSE IF \A n \in 1..100 : Kind(F0, Numbered(s, n)) # "none" THEN -1
                   ELSE CHOOSE n \in 1..100 : Kind(F0, Numbered(s, n)) = "none" /\ \A j \in 1..(n - 1) : Kind(F0, Numbered(s, j)) # "none"
RealPath(F0, s) == LET w == Res(F0, s, TRUE) IN IF There(w) THEN AbsPath(Names(F0.b) \o w.loc) ELSE << >>
\* lines compared without their terminators
RECURSIVE Lines(_, _)
TrimNl(s) == LET I0 == {i \in 1..Len(s) : s[i] \notin {10, 13}} IN IF I0 = {} THEN << >> ELSE Sub(s, 1, CHOOSE i \in I0 : \A j \in I0 : j <= i)
Lines(s, cur) == IF s = << >> THEN << TrimNl(cur) >> ELSE IF s[1] = 10 THEN << TrimNl(cur) >> \o Lines(Tail(s), << >>) ELSE Lines(Tail(s), Append(cur, s[1]))
TextEq(a, b) == Lines(a, << >>) = Lines(b, << >>)

\* ------------------------------------------------------------ open handles
\* G: [n |-> name -> inode (0 none, -1 directory), c |-> inode -> bytes, o |-> offset id -> position, h |-> handle -> [ino, off, rd, wr, app]]
Has0(fl, x) == \E i \in 1..Len(fl) : fl[i] = x
Zeros(n) == [i \in 1..n |-> 0]
Over(c0, off, d0) == LET a == IF off > Len(c0) THEN c0 \o Zeros(off - Len(c0)) ELSE c0
                     IN IF d0 = << >> THEN c0 ELSE Sub(a, 1, off) \o d0 \o From(a, off + Len(d0) + 1)
SetLen(c0, n) == IF n <= Len(c0) THEN Sub(c0, 1, n) ELSE c0 \o Zeros(n - Len(c0))
Slice(c0, off, n) == IF off >= Len(c0) THEN << >> ELSE Sub(c0, off + 1, IF off + n > Len(c0) THEN Len(c0) ELSE off + n)
Ext1(f, k0, v0) == [x \in DOMAIN f \cup {k0} |-> IF x = k0 THEN v0 ELSE f[x]]
Less1(f, k0) == [x \in DOMAIN f \ {k0} |-> f[x]]
Opened(G, nm, fl) == \* [ok, err, created, trunc]
  LET cur == G.n[nm]
      wr == Has0(fl, "write") \/ Has0(fl, "append")
      no(e0) == [ok |-> FALSE, err |-> e0, created |-> FALSE, trunc |-> FALSE]
      yes(cr, tr) == [ok |-> TRUE, err |-> 0, created |-> cr, trunc |-> tr]
  IN IF cur = -2 THEN no(-4)            \* below a missing directory
     ELSE IF cur = -3 THEN no(-9)       \* below a file
     ELSE IF Has0(fl, "create") THEN (IF cur # 0 THEN no(-3) ELSE yes(TRUE, FALSE))
     ELSE IF Has0(fl, "create_always") THEN (IF cur = -1 THEN no(-5) ELSE yes(TRUE, TRUE))
     ELSE IF Has0(fl, "open_truncated") THEN (IF cur = 0 THEN no(-4) ELSE IF cur = -1 THEN no(-5) ELSE yes(FALSE, TRUE))
     ELSE IF cur = -1 THEN (IF wr THEN no(-5) ELSE yes(FALSE, FALSE))
     ELSE IF cur = 0 THEN (IF Has0(fl, "open_always") THEN yes(TRUE, FALSE) ELSE no(-4))
     ELSE yes(FALSE, FALSE)
=============================================================================
