------------------------------- MODULE MmcsModel -------------------------------
(* The commitment with free hashes (no two different inputs have one digest):   *)
(* every opening of a committed row verifies, and nothing else does.            *)
EXTENDS Integers, Sequences
CONSTANTS Shapes
ShapesQ == { << <<1,2>> >>, << <<2,1>> >>, << <<3,1>> >>, << <<4,1>> >>, << <<5,1>> >>, << <<2,2>>, <<1,1>> >>, << <<4,1>>, <<2,1>> >>, << <<2,1>>, <<4,1>> >>, << <<3,1>>, <<3,1>> >>, << <<1,1>>, <<4,1>> >>, << <<8,1>> >> }
FreeH(x) == << "h", x >>
FreeC(a, b) == << "c", a, b >>
FreeZ == << "z" >>
INSTANCE Mmcs WITH H <- FreeH, C <- FreeC, Zero <- FreeZ
VARIABLES ms, t, i, claim, step
vars == << ms, t, i, claim, step >>
Rows(w) == [1..w -> {0, 1}]
\* shapes are lists << height, width >>
Mats(s) == IF Len(s) = 1 THEN {<< a >> : a \in [1..s[1][1] -> Rows(s[1][2])]}
           ELSE {<< a, b >> : a \in [1..s[1][1] -> Rows(s[1][2])], b \in [1..s[2][1] -> Rows(s[2][2])]}
Init == step = "commit" /\ i = 0 /\ claim = << >> /\ t = << >> /\ \E s \in Shapes : ms \in Mats(s)
Commit == step = "commit" /\ step' = "open" /\ t' = Layers(ms) /\ UNCHANGED << ms, i, claim >>
Hs == [j \in 1..Len(ms) |-> Len(ms[j])]
Ws == [j \in 1..Len(ms) |-> Len(ms[j][1])]
Honest(x) == << x, Vals(ms, x), Path(t, x) >>
Open == step = "open" /\ \E x \in 0..(MaxH(ms, 1) - 1) : Openable(ms, x) /\ i' = x /\ claim' = Honest(x) /\ step' = "claimed" /\ UNCHANGED << ms, t >>
Digests == {t[a][b] : a \in 1..Len(t), b \in {1}} \cup {FreeZ}
AlterIndex == step = "claimed" /\ \E x \in 0..(2 * Len(t[1])) : claim' = << x, claim[2], claim[3] >> /\ step' = "altered" /\ UNCHANGED << ms, t, i >>
AlterValue == step = "claimed" /\ \E j \in 1..Len(ms) : \E r \in Rows(Len(ms[j][1])) \cup {SubSeq(ms[j][1], 2, Len(ms[j][1])), ms[j][1] \o << 0 >>} :
                claim' = << claim[1], [claim[2] EXCEPT ![j] = r], claim[3] >> /\ step' = "altered" /\ UNCHANGED << ms, t, i >>
AlterPath == step = "claimed" /\ \E d \in 1..Len(claim[3]) : \E x \in Digests : claim' = << claim[1], claim[2], [claim[3] EXCEPT ![d] = x] >> /\ step' = "altered" /\ UNCHANGED << ms, t, i >>
AlterLen == step = "claimed" /\ claim[3] # << >> /\ \E q \in {Tail(claim[3]), claim[3] \o << FreeZ >>} : claim' = << claim[1], claim[2], q >> /\ step' = "altered" /\ UNCHANGED << ms, t, i >>
\* symbols moved from one opened row to the next
AlterSplit == step = "claimed" /\ Len(ms) = 2 /\ Len(claim[2][1]) > 0
  /\ claim' = << claim[1], << SubSeq(claim[2][1], 1, Len(claim[2][1]) - 1), << claim[2][1][Len(claim[2][1])] >> \o claim[2][2] >>, claim[3] >> /\ step' = "altered" /\ UNCHANGED << ms, t, i >>
Done == step = "altered" /\ UNCHANGED vars
Next == Commit \/ Open \/ AlterIndex \/ AlterValue \/ AlterPath \/ AlterLen \/ AlterSplit \/ Done
Verdict == Accepts(Root(t), Hs, Ws, claim[1], claim[2], claim[3])
Complete == step = "claimed" => Verdict
Binding == step = "altered" => (Verdict = (claim[1] < MaxH(ms, 1) /\ Openable(ms, claim[1]) /\ claim = Honest(claim[1])))
================================================================================
