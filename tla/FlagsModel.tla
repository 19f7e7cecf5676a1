------------------------------ MODULE FlagsModel ------------------------------
(* The grammar over every short command line of a small vocabulary, for two     *)
(* declarations: plain flags, and a subcommand.                                  *)
EXTENDS Flags
VARIABLES av, decl
Fl(par0, k0, nm, sh, lg, req0, env0) == [par |-> par0, k |-> k0, name |-> nm, short |-> sh, long |-> lg, req |-> req0, env |-> env0, envv |-> << 55 >>,
  ch |-> << >>, lo |-> 0, hi |-> 5, loi |-> TRUE, hii |-> FALSE, init |-> << >>]
A == << 45, 97 >>  B == << 45, 98 >>  LX == << 45, 45, 120 >>  LY == << 45, 45, 121 >>  S == << 115 >>  N == << 110 >>
Decls == << << Fl(0, "int", N, << >>, << >>, FALSE, FALSE), Fl(0, "bool", << >>, A, << >>, FALSE, FALSE), Fl(0, "bool", << >>, B, << >>, TRUE, FALSE),
               Fl(0, "vint", << >>, << >>, LX, FALSE, TRUE), Fl(0, "range", << >>, << >>, LY, FALSE, FALSE) >>,
            << Fl(0, "sub", S, << >>, << >>, FALSE, FALSE), Fl(1, "int", N, << >>, << >>, FALSE, FALSE), Fl(1, "bool", << >>, A, << >>, TRUE, FALSE),
               Fl(0, "bool", << >>, B, << >>, TRUE, FALSE), Fl(0, "int", << >>, << >>, LX, FALSE, TRUE) >> >>
Words == {A, B, << 45, 97, 98 >>, LX, LX \o << 61, 51 >>, LY, << 51 >>, << 57 >>, S, << 45, 45 >>, << 45 >>, << 45, 104 >>}
Init == av = << >> /\ decl \in 1..2
Next == Len(av) < 3 /\ \E w \in Words : av' = Append(av, w) /\ UNCHANGED decl
fs == Decls[decl]
Usable == Valid(fs, 0)
R(known) == Run(fs, av, known)
\* nothing required is missing after a successful parse
Complete == \A kn \in BOOLEAN : LET r0 == R(kn) IN r0.ok =>
  \A i \in 1..Len(fs) : (fs[i].par = 0 \/ fs[i].par \in r0.st.set) /\ (fs[i].req \/ (Positional(fs[i]) /\ ~IsSub(fs[i]))) => i \in r0.st.set
\* a flag holds its initial value exactly when it is unset
Untouched == \A kn \in BOOLEAN : LET r0 == R(kn) IN r0.ok => \A i \in 1..Len(fs) : i \notin r0.st.set => r0.st.vals[i] = fs[i].init
\* collecting unknown arguments only ever accepts more, and agrees where nothing is unknown
Known == LET a == R(FALSE) b == R(TRUE) IN (a.ok => b.ok /\ b.st = a.st) /\ (b.ok /\ b.st.unk = << >> => a.ok)
\* forwarded arguments are a suffix, preceded by "--"
Suffix == \A kn \in BOOLEAN : LET r0 == R(kn) n == Len(r0.st.fwd) IN r0.ok /\ n > 0 => EndsWith(av, r0.st.fwd) /\ av[Len(av) - n] = << 45, 45 >>
\* optional flags may be given in any order
Swap == \A i \in 1..(Len(av) - 1) : LET u == av[i] v == av[i + 1] w == [av EXCEPT ![i] = v, ![i + 1] = u] IN
  u \in {A, B, LX \o << 61, 51 >>} /\ v \in {A, B} /\ R(FALSE).ok /\ Run(fs, w, FALSE).ok => R(FALSE).st = Run(fs, w, FALSE).st
=============================================================================
