------------------------------ MODULE IdsTrace ------------------------------
(* Identities that the library assigns, on any connection or generator, are  *)
(* never empty (0) and all different; one chosen by the caller is sent as is. *)
EXTENDS Integers, Sequences, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, used, ok

Init == tid \in 1..Len(Traces) /\ l = 0 /\ used = {} /\ ok = TRUE
Next ==
  /\ ok /\ l < Len(Traces[tid].evs)
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ LET e == Traces[tid].evs[l + 1] IN
     IF e.e = "lib" THEN used' = used \cup {e.id} /\ ok' = (e.id # 0 /\ e.id \notin used)
     ELSE IF e.e = "own" THEN used' = used /\ ok' = (e.id = e.want /\ e.id # 0)
     ELSE used' = used /\ ok' = FALSE
Spec == Init /\ [][Next]_<<tid, l, used, ok>>
Accepted == ok
=============================================================================
