----------------------------- MODULE PipeTrace ------------------------------
(* Is a recorded trace one that Pipe allows?                                 *)
EXTENDS Pipe, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, S

Init == tid \in 1..Len(Traces) /\ l = 0 /\ S = PipeAll0
Next ==
  /\ Possible(S) /\ l < Len(Traces[tid].evs)
  /\ l' = l + 1
  /\ S' = PAfter(S, Traces[tid].evs[l + 1])
  /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, S>>

Accepted == Possible(S)
=============================================================================
