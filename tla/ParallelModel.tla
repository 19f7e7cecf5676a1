---------------------------- MODULE ParallelModel ----------------------------
(* Design model: W workers, static or dynamic schedule, any size and chunk     *)
(* size up to the bounds, every interleaving.                                   *)
EXTENDS Parallel
CONSTANTS MaxN, W
VARIABLES busy, mode, started
vars == << pn, pc, todo, seen, res, busy, mode, started >>
Init == PIdle /\ busy = [w \in 1..W |-> -1] /\ mode \in {"static", "dynamic"} /\ started = FALSE
Start == /\ ~started /\ started' = TRUE
         /\ \E n \in 0..MaxN : \E c \in 0..(MaxN + 1) : PBegin(n, c)
         /\ UNCHANGED << busy, mode >>
\* static: chunk i belongs to worker by contiguous share
Owner(i) == LET m == NumChunks(pn, pc) IN (i * W) \div m + 1
Taken == {busy[w] : w \in 1..W}
Claim(w) == /\ started /\ busy[w] = -1
            /\ \E i \in todo \ Taken : /\ (mode = "static" => Owner(i) = w)
                                       /\ (mode = "dynamic" => \A j \in todo \ Taken : i <= j)
                                       /\ busy' = [busy EXCEPT ![w] = i]
            /\ UNCHANGED << pn, pc, todo, seen, res, mode, started >>
Work(w) == /\ started /\ busy[w] # -1
           /\ PCall(busy[w], busy[w] * pc, ChunkLen(pn, pc, busy[w]), 100 + busy[w])
           /\ busy' = [busy EXCEPT ![w] = -1]
           /\ UNCHANGED << mode, started >>
Finish == /\ started /\ PEnd /\ \A w \in 1..W : busy[w] = -1 /\ UNCHANGED << busy, mode, started >>
Next == Start \/ (\E w \in 1..W : Claim(w) \/ Work(w)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Disjoint == \A v, w \in 1..W : v # w /\ busy[v] # -1 => busy[v] # busy[w]
Order == todo = {} => \A i \in DOMAIN res : res[i] = 99 + i
Inv == AtMostOnce /\ ExactlyOnce /\ Disjoint /\ Order
Ends == <>(started /\ todo = {})
=============================================================================
