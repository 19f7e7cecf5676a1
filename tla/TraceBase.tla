------------------------------ MODULE TraceBase ------------------------------
(* Reading recorded executions of the implementation.                         *)
(* A run records NSHARDS independent histories, one ndJSON file each.  A trace *)
(* specification starts in any of them (t) and consumes one event per step (l) *)
(* with the action of the design specification that the event names.  An event *)
(* that no action explains leaves a state without successor: TLC reports it as *)
(* a deadlock, and t and l name the event.                                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

NShards == atoi(IOEnv.VH_NSHARDS)
Traces == [i \in 1..NShards |-> ndJsonDeserialize(IOEnv.VH_TRACES \o "/" \o ToString(i) \o ".ndjson")]

VARIABLES t, l
tvars == << t, l >>

TInit == t \in 1..NShards /\ l = 1
E == Traces[t][l]
Is(op) == /\ l <= Len(Traces[t])
          /\ Traces[t][l].op = op
          /\ l' = l + 1
          /\ t' = t
TDone == l > Len(Traces[t])
=============================================================================
