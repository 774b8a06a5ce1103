----------------------------- MODULE RingTrace -----------------------------
(* Checks phabrik's id and time span functions, one event per call.         *)
EXTENDS Ring, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, ok, seen   \* seen: names already mapped, with their ids
vars == <<tid, l, ok, seen>>

SignOk(x, s) == s.d = <<>> \/ s.n = x.n

Check(ev) ==
  CASE ev.op = "range" -> ev.r = InRange(ev.b, ev.e, ev.i, 256)
    [] ev.op = "ranges" -> \A k \in 1..Len(ev.r) : ev.r[k] = InRange(ev.b, ev.e, ev.ids[k], 256)
    [] ev.op = "str" -> ev.s = HexOf(ev.id) /\ ev.ok /\ ev.back = ev.id
    [] ev.op = "hex" -> LET h == OfHex(ev.s) IN
                        CASE h.k = "ok" -> ev.ok /\ ev.id = h.id
                          [] h.k = "no" -> ~ev.ok
                          [] OTHER -> ~ev.ok \/ ev.id = h.id
    [] ev.op = "v4" -> ev.id = NameId(ev.u) /\ ev.again = ev.id
    [] ev.op = "md5" -> /\ ev.again = ev.id
                        /\ \A k \in 1..Len(MD5Vectors) : ev.u = MD5Vectors[k][1] => ev.id = OfIdBytes(MD5Vectors[k][2])
                        /\ \A p \in seen : (p[1] = ev.u) = (p[2] = ev.id)
    [] ev.op = "enc" -> ev.out = ObjEnc(IdEnc(ev.a) \o IdEnc(ev.b) \o IdEnc(ev.c)) /\ ev.ok /\ ev.back = <<ev.a, ev.b, ev.c>>
    [] ev.op = "dec" -> IF Len(ev.in) >= 18 /\ ev.in[1] = 132 /\ ev.in[2] = 16   \* one id
                        THEN ev.ok /\ ev.id = OfIdBytes(SubSeq(ev.in, 3, 18))
                        ELSE ~ev.ok
    [] ev.op = "fromdur" -> ev.s \in DurToSpans(ev.d) /\ SignOk(ev.d, ev.s) /\ ev.back = SpanToDur(ev.s)
    [] ev.op = "todur" -> ev.d = SpanToDur(ev.s)
    [] ev.op = "order" -> /\ ~LessI(ev.d2, ev.d1) => ~LessI(ev.s2, ev.s1)
    [] OTHER -> FALSE

Init == tid \in 1..Len(Traces) /\ l = 0 /\ ok = TRUE /\ seen = {}
Next ==
  /\ ok /\ l < Len(Traces[tid].evs)
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ LET ev == Traces[tid].evs[l + 1] IN
     /\ ok' = Check(ev)
     /\ seen' = IF ev.op = "md5" THEN seen \cup {<<ev.u, ev.id>>} ELSE seen
Spec == Init /\ [][Next]_vars
Accepted == ok
=============================================================================
