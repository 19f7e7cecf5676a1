-------------------------------- MODULE Flags --------------------------------
(* The command-line grammar: declared flags, the parse of an argument vector,   *)
(* environment fallbacks and failure reports.  Text is a sequence of bytes.      *)
(* A flag: [par, k, name, short, long, req, env, envv, ch, lo, hi, loi, hii, init]: *)
(* par = the enclosing subcommand's index or 0; env = its fallback variable is   *)
(* set and envv is that variable's value; init = its value before parsing.       *)
EXTENDS Text
Dash == 45
Eq == 61
Alpha(c) == c \in 65..90 \/ c \in 97..122
ValidName(s) == s # << >> /\ Alpha(s[1]) /\ \A i \in 2..Len(s) : Alpha(s[i]) \/ IsDig(s[i]) \/ s[i] = 95
\* names that are not well formed are not recorded by the declaration
ShortOf(s) == IF Len(s) = 2 /\ s[1] = Dash /\ Alpha(s[2]) THEN s ELSE << >>
LongOf(s) == IF Len(s) > 2 /\ s[1] = Dash /\ s[2] = Dash /\ ValidName(From(s, 3)) THEN s ELSE << >>
NameOf(s) == IF ValidName(s) THEN s ELSE << >>

Kids(fs, p0) == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : fs[i].par = p0)
Positional(f) == f.name # << >>
Optional(f) == f.short # << >> \/ f.long # << >>
IsSub(f) == f.k = "sub"
NeedsValue(f) == f.k \notin {"bool", "cbbool"}
Display(f) == IF f.name # << >> THEN f.name ELSE IF f.long # << >> THEN f.long ELSE f.short

\* a declaration is usable
RECURSIVE Valid(_, _)
Valid(fs, p0) ==
  LET ks == Kids(fs, p0)
      f(i) == fs[ks[i]]
      n == Len(ks)
      sub == \E i \in 1..n : IsSub(f(i))
  IN /\ \A i \in 1..n : /\ Positional(f(i)) # Optional(f(i))
                        /\ IsSub(f(i)) => Positional(f(i)) /\ Valid(fs, ks[i])
                        /\ ~NeedsValue(f(i)) => ~Positional(f(i))
                        /\ ~IsSub(f(i)) /\ Positional(f(i)) => \A j \in 1..(i - 1) : IsSub(f(j)) \/ Positional(f(j))
     /\ sub => \A i \in 1..n : Positional(f(i)) => IsSub(f(i)) /\ \A j \in 1..(i - 1) : Positional(f(j))

IntKind(k0) == CASE k0 \in {"int", "vint", "range", "pos"} -> Ty("i32") [] k0 = "i8" -> Ty("i8") [] k0 = "u16" -> Ty("u16")
                 [] k0 = "i64" -> Ty("i64") [] k0 = "u64" -> Ty("u64")
IsInt(k0) == k0 \in {"int", "vint", "range", "pos", "i8", "u16", "i64", "u64"}
No == [ok |-> FALSE]
Yes(v) == [ok |-> TRUE, v |-> v]
\* one value of a flag out of text
One(f, s) ==
  IF IsInt(f.k)
  THEN LET w == CASE f.k \in {"i8"} -> Ty("i32") [] f.k = "u16" -> Ty("u32") [] OTHER -> IntKind(f.k)
           x == ParseInt(w, s, 10)
       IN IF ~x.ok \/ ~InTy(IntKind(f.k), x.v) THEN No
          ELSE IF f.k = "pos" /\ (x.v.n \/ ZIsZero(x.v)) THEN No
          ELSE IF f.k = "range" /\ ~((IF f.loi THEN ZLe(ZInt(f.lo), x.v) ELSE ZLess(ZInt(f.lo), x.v)) /\ (IF f.hii THEN ZLe(x.v, ZInt(f.hi)) ELSE ZLess(x.v, ZInt(f.hi)))) THEN No
          ELSE Yes(x.v)
  ELSE CASE f.k \in {"str", "sstr"} -> IF s = << >> THEN No ELSE Yes(s)
         [] f.k = "path" -> Yes(s)
         [] f.k = "choice" -> IF s # << >> /\ \E i \in 1..Len(f.ch) : f.ch[i] = s THEN Yes(s) ELSE No
         [] f.k = "cb" -> IF \E i \in 1..Len(f.ch) : f.ch[i] = s THEN Yes(s) ELSE No
         [] f.k = "bool" -> Yes(<< 49 >>)
         [] f.k = "cbbool" -> IF f.ch = << >> THEN Yes(<< 49 >>) ELSE No
\* the value after one more occurrence
Take(f, old, v) == CASE f.k = "vint" -> Append(old, v)
                     [] f.k = "sstr" -> IF \E i \in 1..Len(old) : old[i] = v THEN old ELSE Append(old, v)
                     [] OTHER -> << v >>

\* st = [vals, set, unk, fwd]; a result adds ok, why, who (flag index or 0), arg (text)
Fail(st, why0, who0, arg0) == [ok |-> FALSE, why |-> why0, who |-> who0, arg |-> arg0, st |-> st]
Give(fs, st, i, s) == LET o == One(fs[i], s) IN [st EXCEPT !.vals[i] = Take(fs[i], @, o.v), !.set = @ \cup {i}]
Named(fs, ks, P(_)) == LET c == SelectSeq(ks, P) IN IF c = << >> THEN 0 ELSE c[1]
\* "--name", "--name=value", "-n", "-n=value"
Rest(f, s) == CASE f.long # << >> /\ (s = f.long \/ StartsWith(s, Append(f.long, Eq))) -> Yes(From(s, Len(f.long) + 1))
                [] f.short # << >> /\ (s = f.short \/ StartsWith(s, Append(f.short, Eq))) -> Yes(From(s, Len(f.short) + 1))
                [] OTHER -> No
Letter(fs, ks, c) == Named(fs, ks, LAMBDA i : ~NeedsValue(fs[i]) /\ fs[i].short = << Dash, c >>)
IsBundle(fs, ks, s) == Len(s) > 1 /\ s[1] = Dash /\ \A j \in 2..Len(s) : Alpha(s[j]) /\ Letter(fs, ks, s[j]) # 0
RECURSIVE Bundle(_, _, _, _, _)
Bundle(fs, ks, st, s, j) ==
  IF j > Len(s) THEN [ok |-> TRUE, st |-> st]
  ELSE LET i == Letter(fs, ks, s[j]) IN
       IF ~One(fs[i], << >>).ok THEN Fail(st, "value", i, s) ELSE Bundle(fs, ks, Give(fs, st, i, << >>), s, j + 1)

RECURSIVE Fallbacks(_, _, _, _, _)
\* unset flags: required ones fail, the others take their environment variable
Fallbacks(fs, ks, st, j, skipsubs) ==
  IF j > Len(ks) THEN [ok |-> TRUE, st |-> st]
  ELSE LET i == ks[j] f == fs[i] IN
       IF i \in st.set \/ (skipsubs /\ IsSub(f)) THEN Fallbacks(fs, ks, st, j + 1, skipsubs)
       ELSE IF f.req THEN Fail(st, "required", i, << >>)
       ELSE IF ~f.env \/ IsSub(f) THEN Fallbacks(fs, ks, st, j + 1, skipsubs)
       ELSE IF ~One(f, f.envv).ok THEN Fail(st, "env", i, << >>)
       ELSE Fallbacks(fs, ks, Give(fs, st, i, f.envv), j + 1, skipsubs)

\* av = argument vector without the program name; a0 = next argument; known = unknown arguments are collected
RECURSIVE Parse(_, _, _, _, _, _, _)
Parse(fs, av, p0, a0, np, known, st) ==
  LET ks == Kids(fs, p0)
      pos == SelectSeq(ks, LAMBDA i : Positional(fs[i]))
      subs == pos # << >> /\ IsSub(fs[ks[1]])
      End(z) == IF ~subs /\ np < Len(pos) THEN Fail(z, "positional", pos[np + 1], << >>) ELSE Fallbacks(fs, ks, z, 1, FALSE)
  IN IF a0 > Len(av) THEN End(st)
     ELSE LET s == av[a0] IN
     IF s = << Dash, Dash >> THEN End([st EXCEPT !.fwd = From(av, a0 + 1)])
     ELSE IF s \in {<< 45, 45, 104, 101, 108, 112 >>, << 45, 104 >>} THEN Fail(st, "help", 0, s)
     ELSE IF ~subs /\ np < Len(pos)
     THEN LET i == pos[np + 1] IN
          IF One(fs[i], s).ok THEN Parse(fs, av, p0, a0 + 1, np + 1, known, Give(fs, st, i, s)) ELSE Fail(st, "value", i, s)
     ELSE LET sub == Named(fs, ks, LAMBDA i : IsSub(fs[i]) /\ fs[i].name = s)
              opt == Named(fs, ks, LAMBDA i : ~Positional(fs[i]) /\ Rest(fs[i], s).ok)
          IN IF subs /\ sub # 0
             THEN LET r0 == Parse(fs, av, sub, a0 + 1, 0, known, [st EXCEPT !.set = @ \cup {sub}])
                  IN IF ~r0.ok THEN r0 ELSE Fallbacks(fs, ks, r0.st, 1, TRUE)
             ELSE IF IsBundle(fs, ks, s)
             THEN LET r0 == Bundle(fs, ks, st, s, 2) IN IF ~r0.ok THEN r0 ELSE Parse(fs, av, p0, a0 + 1, np, known, r0.st)
             ELSE IF opt # 0
             THEN LET rest == Rest(fs[opt], s).v
                      glued == rest # << >>
                      two == ~glued /\ NeedsValue(fs[opt])
                      v == IF glued THEN Tail(rest) ELSE IF two /\ a0 < Len(av) THEN av[a0 + 1] ELSE << >>
                  IN IF two /\ a0 = Len(av) THEN Fail(st, "novalue", opt, s)
                     ELSE IF ~One(fs[opt], v).ok THEN Fail(st, "value", opt, s)
                     ELSE Parse(fs, av, p0, a0 + (IF two THEN 2 ELSE 1), np, known, Give(fs, st, opt, v))
             ELSE IF known
             THEN LET more == a0 < Len(av) /\ ~StartsWith(av[a0 + 1], << Dash >>)
                  IN Parse(fs, av, p0, a0 + (IF more THEN 2 ELSE 1), np, known, [st EXCEPT !.unk = @ \o (IF more THEN << s, av[a0 + 1] >> ELSE << s >>)])
             ELSE Fail(st, "unknown", p0, s)
Start(fs) == [vals |-> [i \in 1..Len(fs) |-> fs[i].init], set |-> {}, unk |-> << >>, fwd |-> << >>]
Run(fs, av, known) == Parse(fs, av, 0, 1, 0, known, Start(fs))

\* edit distance, row by row
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Row(_, _, _, _, _), Dist(_, _, _, _)
Row(prev, cur, a, b, j) == IF j > Len(b) THEN cur
  ELSE Row(prev, Append(cur, IF a = b[j] THEN prev[j] ELSE 1 + Min2(prev[j], Min2(prev[j + 1], cur[j]))), a, b, j + 1)
Dist(a, b, i, prev) == IF i > Len(a) THEN prev[Len(b) + 1] ELSE Dist(a, b, i + 1, Row(prev, << i >>, a[i], b, 1))
Edit(a, b) == Dist(a, b, 1, [j \in 1..(Len(b) + 1) |-> j - 1])
\* names worth suggesting instead of s: the nearest ones, if near enough
Names(fs, p0) == LET ks == Kids(fs, p0) IN
  UNION {({fs[ks[j]].short, fs[ks[j]].long} \cup (IF IsSub(fs[ks[j]]) THEN {fs[ks[j]].name} ELSE {})) \ {<< >>} : j \in 1..Len(ks)}
Near(fs, p0, s) == LET c == {x \in Names(fs, p0) : Edit(s, x) <= (Len(s) + 1) \div 2} IN {x \in c : \A y \in c : Edit(s, x) <= Edit(s, y)}
Quoted(s) == << 34 >> \o s \o << 34 >>
Has(s, t0) == \E i \in 0..(Len(s) - Len(t0)) : Sub(s, i + 1, i + Len(t0)) = t0
Reports(fs, r0, err) ==
  CASE r0.why \in {"value", "novalue", "required", "positional"} -> Has(err, Display(fs[r0.who]))
    [] r0.why = "help" -> Has(err, r0.arg)
    [] r0.why = "unknown" -> /\ Has(err, Quoted(r0.arg))
                             /\ LET c == Near(fs, r0.who, r0.arg) IN IF c = {} THEN \A x \in Names(fs, r0.who) : x # r0.arg => ~Has(err, Quoted(x)) ELSE \E x \in c : Has(err, Quoted(x))
    [] OTHER -> TRUE
=============================================================================
