----------------------------- MODULE FilesTrace -----------------------------
(* Recorded operations on scratch trees, handles and paths.                    *)
EXTENDS Files, TraceBase
VARIABLES fs, hd
vars == << fs, hd >>
Tree(ev) == LET nd == [i \in 1..Len(ev.tree) |-> << ev.tree[i].p, [t |-> ev.tree[i].t, v |-> ev.tree[i].v] >>]
            IN [p0 \in {nd[i][1] : i \in 1..Len(nd)} \cup {<< >>} |->
                 IF p0 = << >> THEN Dir ELSE nd[CHOOSE i \in 1..Len(nd) : nd[i][1] = p0][2]]
Init == TInit /\ fs = [b |-> << >>, n |-> << >>] /\ hd = [n |-> << >>]
Same == UNCHANGED vars
\* the tree after the operation is exactly the one the model predicts
Becomes(G) == /\ LET g == TLCEval(G) IN Tree(E) = g.n /\ fs' = g
              /\ UNCHANGED hd
Keeps == Becomes(fs)
Resync(p0) == /\ LET g == TLCEval(Tree(E))
                 IN /\ (~HasLinks(fs) => {q0 \in DOMAIN fs.n \cup DOMAIN g : ~(q0 \in DOMAIN fs.n /\ q0 \in DOMAIN g /\ fs.n[q0] = g[q0]) /\ ~IsPrefix0(p0, q0)} = {})
                    /\ fs' = [fs EXCEPT !.n = g]
              /\ UNCHANGED hd
TBegin == /\ Is("Begin") /\ fs' = [b |-> E.base, n |-> Tree(E)] /\ UNCHANGED hd
Simple(r0) == E.ok = r0.ok /\ Becomes(r0.F)
TWrite == /\ Is("Write") /\ Simple(TLCEval(Write(fs, E.p, E.d)))
TAppend == /\ Is("Append") /\ Simple(TLCEval(AppendTo(fs, E.p, E.d)))
TMkDir == /\ Is("MkDir")
  /\ LET r0 == TLCEval(MkDir(fs, E.p)) IN Simple(r0) /\ (~r0.ok => E.err = r0.err)
TDelete == /\ Is("Delete") /\ Simple(TLCEval(Delete(fs, E.p, E.rec)))
TRename == /\ Is("Replace") /\ Simple(TLCEval(Rename(fs, E.p, E.to)))
TCopyFile == /\ Is("CopyFile") /\ Simple(TLCEval(CopyFile(fs, E.p, E.to)))
TCopyDir == /\ Is("CopyDir")
  /\ LET r0 == TLCEval(CopyDir(fs, E.p, E.to, E.rec, E.excl))
     IN /\ E.ok = r0.ok
        /\ IF r0.ok THEN Becomes(r0.F) ELSE Resync(Touched(fs, E.to))
TMove == /\ Is("Move")
  /\ LET r0 == TLCEval(MovePlain(fs, E.p, E.to))
     IN /\ E.ok = r0.ok
        /\ IF r0.ok \/ r0.how = "no" THEN Becomes(r0.F) ELSE Resync(Touched(fs, E.to))
TLink == /\ Is("Link")
  /\ LET w == Res(fs, E.p, FALSE) ok == w.r = "ok" /\ ~w.ex
     IN E.ok = ok /\ Becomes(IF ok THEN Put(fs, w.loc, [t |-> "l", v |-> E.to]) ELSE fs)
TTrunc == /\ Is("Truncate")
  /\ LET ok == Kind(fs, E.p) = "f"
     IN E.ok = ok /\ Becomes(IF ok THEN Put(fs, Res(fs, E.p, TRUE).loc, File(SetLen(Data(fs, E.p), E.at))) ELSE fs)
\* a fresh name made of a prefix and six characters
TTemp == /\ Is("Temp")
  /\ LET ok == E.p = << >> \/ Kind(fs, E.p) = "d"
                              w == Res(fs, E.path, FALSE)
     IN /\ E.ok = ok
        /\ (ok => /\ w.r = "ok" /\ ~w.ex
                  /\ DirName(E.path) = StripSep(E.p)
                  /\ StartsWith(BaseName(E.path), E.prefix) /\ Len(BaseName(E.path)) = Len(E.prefix) + 6)
        /\ Becomes(IF ok THEN Put(fs, w.loc, IF E.dir THEN Dir ELSE File(E.d)) ELSE fs)
Num(x) == IF x \in {"f", "l"} THEN x ELSE x
\* everything that only looks at one path
TLook == /\ Is("Look")
  /\ LET k0 == Kind(fs, E.p) w == Res(fs, E.p, FALSE) lk == LKind(fs, E.p)
         file == k0 = "f"
         d0 == IF file THEN Data(fs, E.p) ELSE << >>
         readable == file /\ ~Parental(E.p)
         cut == IF Len(d0) > E.max THEN Sub(d0, 1, E.max) ELSE d0
     IN /\ E.exists = (k0 # "none") /\ E.readable = (k0 # "none") /\ E.writable = (k0 # "none")
        /\ E.dirx = (k0 = "d")
        /\ E.islink = (lk = "l")
        /\ E.info = (k0 # "none") /\ (k0 # "none" => E.infodir = (k0 = "d") /\ ~E.infolink)
        /\ (file => E.size = Len(d0))
        /\ E.sizeok = (k0 # "none")
        /\ E.empty = (k0 # "d" \/ Children(fs, Res(fs, E.p, TRUE).loc) = {})
        /\ E.str.ok = readable /\ (E.str.d = IF readable THEN d0 ELSE << >>)
        /\ E.bytes.ok = readable /\ (E.bytes.d = IF readable THEN d0 ELSE << >>)
        /\ E.nonblock.ok = file /\ (E.nonblock.d = d0)
        /\ E.maxed.ok = (readable /\ Len(d0) <= E.max) /\ (E.maxed.d = IF readable THEN cut ELSE << >>)
        /\ E.null = readable
        /\ E.bin = [ok |-> readable, d |-> IF readable THEN d0 ELSE << >>]
        /\ E.map = [ok |-> readable /\ d0 # << >>, d |-> IF readable THEN d0 ELSE << >>]
        /\ (E.raw = IF file THEN [n |-> Len(cut), d |-> cut] ELSE [n |-> -1, d |-> << >>])
        /\ (E.real = RealPath(fs, E.p))
        /\ (E.norm = IF file THEN RealPath(fs, E.p) ELSE << >>)
        /\ (E.lex = IF E.p = << >> THEN << >> ELSE LexAbs(fs.b, E.p))
        /\ E.rdlink.ok = (lk = "l") /\ (E.rdlink.d = IF lk = "l" THEN fs.n[w.loc].v ELSE << >>)
        /\ (E.rdabs = IF lk # "l" THEN << >> ELSE LET v0 == fs.n[w.loc].v IN LexAbs(fs.b, IF Abs(v0) THEN v0 ELSE PAppend(DirName(E.p), v0)))
        /\ E.uniq = UniqueNo(fs, E.p)
        /\ (E.uniqp = IF UniqueNo(fs, E.p) = 0 THEN E.p ELSE IF UniqueNo(fs, E.p) < 0 THEN << >> ELSE Numbered(E.p, UniqueNo(fs, E.p)))
        /\ (readable => E.preread) /\ (k0 = "none" \/ Parental(E.p) => ~E.preread)
  /\ Keeps
TPair == /\ Is("Pair")
  /\ LET a == Kind(fs, E.p) b == Kind(fs, E.to) both == a = "f" /\ b = "f"
     IN /\ E.eq = (both /\ Data(fs, E.p) = Data(fs, E.to))
        /\ (both => E.teq = TextEq(Data(fs, E.p), Data(fs, E.to)))
        /\ (~both => ~E.teq)
  /\ Keeps
TSize == /\ Is("DirSize") /\ E.size = DirSize(fs, E.p) /\ Keeps
\* the path an enumerator gives for an entry
Shown(s, rel) == LET RECURSIVE Go(_, _)
                     Go(acc, r0) == IF r0 = << >> THEN acc ELSE Go(PAppend(acc, r0[1]), Tail(r0))
                 IN Go(StripSep(s), rel)
TEnum == /\ Is("Enum")
  /\ LET ty == {E.types[i] : i \in 1..Len(E.types)}
         names == "names" \in ty
         want == TLCEval(Enum(fs, E.p, E.rec, IF names THEN {"files", "dirs"} ELSE ty, E.pat, E.all))
         x == Res(fs, E.p, TRUE).loc
         dd == "dotdot" \in ty /\ Kind(fs, E.p) = "d" /\ ("dirs" \in ty \/ names) /\ Matches(E.pat, << DT, DT >>)
         paths == {Shown(E.p, r0) : r0 \in want} \cup (IF dd THEN {Shown(E.p, << << DT, DT >> >>)} ELSE {})
     IN /\ {E.got[i].p : i \in 1..Len(E.got)} = paths /\ Len(E.got) = Cardinality(paths)
        /\ \A i \in 1..Len(E.got) : LET g == E.got[i] IN BaseName(g.p) # << DT, DT >> =>
             LET r0 == CHOOSE r0 \in want : Shown(E.p, r0) = g.p
                 nd == fs.n[x \o r0]
                 st == IF nd.t = "l" /\ "links" \notin ty THEN Kind(fs, Join(x \o r0, << SL >>)) ELSE nd.t
             IN IF names THEN TRUE ELSE (/\ g.name = r0[Len(r0)] /\ g.dir = (st = "d")
                          /\ (st = "f" /\ nd.t = "f" => g.size = Len(nd.v))
                          /\ (st = "f" /\ nd.t = "l" => g.size = Len(Data(fs, Join(x \o r0, << SL >>))))
                          /\ (st = "l" => g.size = Len(nd.v))
                          /\ (st = "none" => g.size = 0))
  /\ Keeps
TPerm == /\ Is("Perm")
  /\ LET k0 == Kind(fs, E.p) # "none" IN E.set = k0 /\ E.get = k0 /\ (k0 => E.mode = E.got)
         /\ Keeps
TTouch == /\ Is("Touch")
  /\ LET k0 == Kind(fs, E.p) # "none" /\ ~Parental(E.p) IN E.ok = k0 /\ (k0 => E.acc = E.gacc /\ E.modi = E.gmod)
          /\ Keeps
\* mapped writes: carried to the file or not, by mode
TMapW == /\ Is("MapWrite")
  /\ LET ok == Kind(fs, E.p) = "f" /\ Data(fs, E.p) # << >> /\ ~Parental(E.p)
         d1 == IF ok THEN Over(Data(fs, E.p), E.at, E.d) ELSE << >>
     IN /\ E.ok = ok
        /\ (ok => E.seen = d1)
        /\ Becomes(IF ok /\ E.shared THEN Put(fs, Res(fs, E.p, TRUE).loc, File(d1)) ELSE fs)
\* ---------------------------------------------------------------- paths
TPath == /\ Is("Path")
  /\ LET s == E.p IN
   /\ E.comps = Comps(s) /\ E.dir = DirName(s) /\ E.base = BaseName(s) /\ E.ext = Ext(s) /\ E.fext = FinalExt(s)
   /\ E.noext = NoExt(s) /\ E.nofext = NoFinalExt(s) /\ E.abs = Abs(s) /\ E.root = IsRoot(s) /\ E.ends = EndSep(s)
   /\ E.asend = AsEndSep(s) /\ E.strip = StripSep(s) /\ E.par = Parental(s)
   /\ E.ins = InsertExt(s, E.x)
   /\ E.app = PAppend(s, E.q) /\ E.app2 = PAppend(s, E.q) /\ E.app3 = PAppend(s, E.q)
   /\ E.isp = IsParent(s, E.q)
   /\ (E.rel = IF IsParent(s, E.q) THEN PAppend(E.x, RelTo(s, E.q)) ELSE E.x)
   /\ E.eq = (s = E.q)
   /\ Same
\* --------------------------------------------------------------- handles
THBegin == /\ Is("HBegin")
  /\ hd' = [n |-> [x \in {"f", "g", "d", "m", "fx"} |-> IF x = "d" THEN -1 ELSE IF x = "m" THEN -2 ELSE IF x = "fx" THEN -3 ELSE IF x = "f" THEN 1 ELSE 0],
            c |-> [i \in {1} |-> E.d], o |-> << >>, h |-> << >>, k |-> 2]
  /\ UNCHANGED fs
HSt == hd
TOpen == /\ Is("Open")
  /\ LET r0 == Opened(hd, E.n, E.fl)
         old == hd.n[E.n]
         ino == IF old = 0 THEN hd.k ELSE old
         c1 == IF old = -1 THEN hd.c ELSE IF old = 0 \/ r0.trunc THEN Ext1(hd.c, ino, << >>) ELSE hd.c
         hh == [ino |-> ino, off |-> E.h, rd |-> Has0(E.fl, "read") \/ ~(Has0(E.fl, "write") \/ Has0(E.fl, "append")), wr |-> Has0(E.fl, "write") \/ Has0(E.fl, "append"), app |-> Has0(E.fl, "append")]
     IN /\ E.ok = r0.ok /\ E.err = r0.err /\ E.created = r0.created
        /\ hd' = IF ~r0.ok THEN hd
                 ELSE [n |-> IF old = -1 THEN hd.n ELSE [hd.n EXCEPT ![E.n] = IF Has0(E.fl, "delete_on_close") THEN 0 ELSE ino], c |-> c1,
                       o |-> Ext1(hd.o, E.h, 0), h |-> Ext1(hd.h, E.h, hh), k |-> hd.k + 1]
        /\ UNCHANGED fs
\* a directory can be opened for reading, and nothing else done with it
OnDir == hd.h[E.h].ino = -1
Hh == hd.h[E.h]
Cc == hd.c[Hh.ino]
Pos == hd.o[Hh.off]
SetO(v0) == [hd EXCEPT !.o = Ext1(hd.o, Hh.off, v0)]
HSame == UNCHANGED vars
THRead == /\ Is("HRead")
  /\ LET off == IF E.cur THEN Pos ELSE E.off
         bad == E.n < 0 \/ ~Hh.rd \/ OnDir \/ (~E.cur /\ E.off < 0)
         got == IF bad THEN << >> ELSE Slice(Cc, off, E.n)
     IN /\ E.ret = (IF bad THEN -1 ELSE Len(got)) /\ E.d = got
        /\ IF E.cur /\ ~bad THEN hd' = SetO(Pos + Len(got)) ELSE hd' = hd
        /\ UNCHANGED fs
THWrite == /\ Is("HWrite")
  /\ LET cur == E.cur \/ Hh.app
         bad == ~Hh.wr \/ (~cur /\ E.off < 0)
         off == IF Hh.app THEN Len(Cc) ELSE IF E.cur THEN Pos ELSE E.off
     IN /\ E.ret = (IF bad THEN -1 ELSE Len(E.d))
        /\ hd' = IF bad \/ E.d = << >> THEN hd
                 ELSE [hd EXCEPT !.c = Ext1(hd.c, Hh.ino, Over(Cc, off, E.d)), !.o = IF cur THEN Ext1(hd.o, Hh.off, off + Len(E.d)) ELSE hd.o]
        /\ UNCHANGED fs
THSeek == /\ Is("HSeek")
  /\ LET to == (IF E.wh = 0 THEN 0 ELSE IF E.wh = 1 THEN Pos ELSE Len(Cc)) + E.off
     IN /\ E.ret = (IF to < 0 THEN -1 ELSE to)
        /\ IF to < 0 THEN hd' = hd ELSE hd' = SetO(to)
        /\ UNCHANGED fs
THLen == /\ Is("HLen") /\ E.len = Len(Cc) /\ E.size = Len(Cc) /\ ~E.isdir /\ E.flush /\ HSame
THSetLen == /\ Is("HSetLen")
  /\ LET ok == Hh.wr /\ E.n >= 0
     IN /\ E.ok = ok
        /\ hd' = IF ok THEN [hd EXCEPT !.c = Ext1(hd.c, Hh.ino, SetLen(Cc, E.n))] ELSE hd
        /\ UNCHANGED fs
THAlloc == /\ Is("HAlloc")
  /\ LET ok == Hh.wr
     IN /\ E.ok = ok
        /\ hd' = IF ok THEN [hd EXCEPT !.c = Ext1(hd.c, Hh.ino, IF E.off + E.n > Len(Cc) THEN SetLen(Cc, E.off + E.n) ELSE Cc)] ELSE hd
        /\ UNCHANGED fs
\* a duplicate shares the offset, a moved handle is the same handle
THDup == /\ Is("HDup") /\ E.ok /\ hd' = [hd EXCEPT !.h = Ext1(hd.h, E.h2, Hh)] /\ UNCHANGED fs
THMove == /\ Is("HMove") /\ E.ok /\ ~E.old /\ hd' = [hd EXCEPT !.h = Ext1(Less1(hd.h, E.h), E.h2, Hh)] /\ UNCHANGED fs
THClose == /\ Is("HClose") /\ E.was /\ ~E.now /\ hd' = [hd EXCEPT !.h = Less1(hd.h, E.h)] /\ UNCHANGED fs
THUnlink == /\ Is("HUnlink") /\ hd' = [hd EXCEPT !.n = [hd.n EXCEPT ![E.n] = 0]] /\ UNCHANGED fs
THDisk == /\ Is("HDisk")
  /\ \A i \in 1..Len(E.names) : LET x == E.names[i] ino == hd.n[x.n] IN x.there = (ino > 0) /\ (ino > 0 => x.d = hd.c[ino])
  /\ HSame
\* ------------------------------------------------------------- large files
Gen(k0, n) == [i \in 1..n |-> (i * k0 + i \div 251) % 256]
TBig == /\ Is("Big")
  /\ LET c0 == TLCEval(Gen(E.k, E.n))
     IN /\ E.wrote
        /\ E.str.ok /\ E.str.d = c0
        /\ E.bytes = c0
        /\ E.maxed.ok = (E.n <= E.max) /\ E.maxed.d = (IF E.n <= E.max THEN c0 ELSE Sub(c0, 1, E.max))
        /\ E.copied /\ E.copy = c0
        /\ E.same /\ ~E.other
        /\ Same
TRegion == /\ Is("Region")
  /\ LET c0 == TLCEval(Gen(E.k, E.n))
         new == IF E.mode = "extend" /\ E.off + E.size > E.n THEN SetLen(c0, E.off + E.size) ELSE c0
         whole == E.off = 0 /\ E.size = 0
         ok == IF whole THEN E.n > 0 ELSE E.size > 0 \/ E.off % 4096 # 0
         want == IF whole THEN c0 ELSE Sub(new \o Zeros(4096), E.off + 1, E.off + E.size)
         d1 == Over(want, E.at, E.w)
     IN /\ E.ok = ok
        /\ (ok => /\ E.d = want
                  /\ (E.w # << >> => E.seen = d1)
                  /\ E.after = (IF E.mode \in {"rw", "extend"} /\ E.w # << >> THEN Over(new, E.off + E.at, E.w) ELSE new))
        /\ Same
Next == TBegin \/ TWrite \/ TAppend \/ TMkDir \/ TDelete \/ TRename \/ TCopyFile \/ TCopyDir \/ TMove \/ TLink \/ TTrunc \/ TTemp \/ TLook \/ TPair \/ TSize
        \/ TEnum \/ TPerm \/ TTouch \/ TMapW \/ TPath \/ THBegin \/ TOpen \/ THRead \/ THWrite \/ THSeek \/ THLen \/ THSetLen \/ THAlloc \/ THDup \/ THMove \/ THClose \/ THUnlink \/ THDisk
        \/ TBig \/ TRegion \/ (TDone /\ UNCHANGED << t, l, fs, hd >>)
=============================================================================
