---------------------------- MODULE NamingTrace ----------------------------
(* Is a recorded trace one that Naming allows? S: the states it can be in.   *)
EXTENDS Naming, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, S

Init == tid \in 1..Len(Traces) /\ l = 0 /\ S = {Init0}
Next ==
  /\ S # {} /\ l < Len(Traces[tid].evs)
  /\ l' = l + 1
  /\ S' = After(S, Traces[tid].evs[l + 1])
  /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, S>>

Accepted == S # {}
=============================================================================
