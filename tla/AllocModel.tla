----------------------------- MODULE AllocModel -----------------------------
(* All histories of up to three blocks of up to two sizes in each mode.        *)
EXTENDS Alloc
CONSTANT Depth
VARIABLES S, n
mv == << S, n >>
Init == S \in {Fresh(m) : m \in {"under", "local", "none"}} /\ n = 0
Take == \E p \in 1..3 \ DOMAIN S.live, q \in {1, 3}, b \in {0, 2, 4} :
          /\ S.held /\ n < Depth /\ (S.mode = "under" => b >= q)
          /\ S' = Alloc(S, p, q, b, 10 * p + n) /\ n' = n + 1
Give == \E p \in DOMAIN S.live : ~S.gone /\ n < Depth /\ S' = Free(S, p) /\ n' = n + 1
Leave == S.held /\ S' = Unref(S) /\ n' = n
Next == Take \/ Give \/ Leave
Right == Books(S) /\ Ends(S) /\ Ids(S)
\* nothing is ever left behind: from a state without the reader, giving back everything ends it
Closes == ~S.held => (S.gone <=> DOMAIN S.live = {})
=============================================================================
