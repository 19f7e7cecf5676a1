------------------------------ MODULE FlagsTrace ------------------------------
(* Recorded declarations and parses of command lines.                           *)
EXTENDS Flags, TraceBase
Init == TInit
Norm(f) == [f EXCEPT !.name = NameOf(@), !.short = ShortOf(@), !.long = LongOf(@),
                     !.init = [i \in 1..Len(f.init) |-> IF IsInt(f.k) THEN SignedNum(f.init[i], 10).v ELSE f.init[i]]]
SameSet(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : a[i] = b[j]
SameVal(f, got, want) == IF IsInt(f.k) THEN Len(got) = Len(want) /\ \A i \in 1..Len(got) : SignedNum(got[i], 10).v = want[i]
                         ELSE IF f.k = "sstr" THEN SameSet(got, want) ELSE got = want
Active(fs, st, ks) == Named(fs, ks, LAMBDA i : IsSub(fs[i]) /\ i \in st)
RECURSIVE ActiveOf(_, _, _)
ActiveOf(fs, st, p0) == LET a == Active(fs, st, Kids(fs, p0)) IN IF a = 0 THEN p0 ELSE ActiveOf(fs, st, a)
TParse == /\ Is("Parse")
  /\ LET fs == [i \in 1..Len(E.flags) |-> Norm(E.flags[i])]
         valid == Valid(fs, 0)
     IN /\ \A i \in 1..Len(fs) : E.declared[i] = << fs[i].name, fs[i].short, fs[i].long >>
        /\ IF ~valid THEN ~E.ok /\ E.err # << >> /\ E.argvout = E.av
           ELSE LET r0 == Run(fs, E.av, E.known)
                    good == r0.ok /\ E.veto = FALSE
                IN /\ E.ok = good
                   /\ E.vetoed = r0.ok              \* the user's own validation runs exactly on a successful parse
                   /\ (good => /\ \A i \in 1..Len(fs) : IsSub(fs[i]) \/ SameVal(fs[i], E.vals[i], r0.st.vals[i])
                               /\ \A i \in 1..Len(fs) : E.isset[i] = (i \in r0.st.set) /\ (IsSub(fs[i]) => E.subset[i] = E.isset[i])
                               /\ E.fwd = (IF E.wantfwd THEN r0.st.fwd ELSE << >>)
                               /\ E.argvout = (IF E.known THEN r0.st.unk ELSE E.av)
                               /\ LET a == ActiveOf(fs, r0.st.set, 0) ks == Kids(fs, a)
                                  IN \A j \in 1..Len(ks) : LET f == fs[ks[j]] IN (Positional(f) => Has(E.help, f.name)) /\ Has(E.help, f.short) /\ Has(E.help, f.long))
                   /\ (~r0.ok => E.argvout = E.av /\ Reports(fs, r0, E.err) /\ (r0.why # "env" => E.err # << >>))
Next == TParse \/ (TDone /\ UNCHANGED tvars)
=============================================================================
