---------------------------- MODULE CodecTrace ----------------------------
(* Checks what phabrik's Marshal and Unmarshal did, one event per call.     *)
EXTENDS Codec, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
vars == <<tid, l, ok>>

\* memory a call may allocate for n bytes of input
AllocBound(n) == 131072 + 2048 * n

\* res: [e |-> TRUE] an error, else [e |-> FALSE, v |-> the value]
ResOk(ty, d, res) ==
  CASE d.k \in {"rej", "end"} -> res.e
    [] d.k = "ok" -> ~res.e /\ Same(ty, res.v, d.v)
    [] OTHER -> TRUE

Check(ev) ==
  CASE ev.op = "marshal" ->      \* value -> bytes, and back
         /\ ~ev.out.e
         /\ LET d == DecAll(ev.ty, ev.out.b) IN
            /\ d.k = "ok"
            /\ Same(ev.ty, d.v, ev.v)
            /\ Enc(ev.ty, d.v) = ev.out.b
         /\ ~ev.back.e /\ Same(ev.ty, ev.back.v, ev.v)
    [] ev.op = "unsup" -> ev.out.e   \* not a supported shape
    [] ev.op = "un" ->           \* any bytes
         /\ ev.alloc <= AllocBound(Len(ev.inp))
         /\ ResOk(ev.ty, Dec(ev.ty, ev.inp, 1), ev.res)
    [] ev.op = "trunc" ->        \* all strict prefixes of a valid encoding
         /\ DecAll(ev.ty, ev.inp).k = "ok"
         /\ \A i \in 1..Len(ev.res) : ev.res[i] /\ Dec(ev.ty, SubSeq(ev.inp, 1, i - 1), 1).k = "end"
         /\ Len(ev.res) = Len(ev.inp)
    [] ev.op = "ver" ->          \* encoded as tn, decoded as to
         LET d == DecAll(ev.tn, ev.inp) IN
         /\ d.k = "ok"
         /\ ~ev.res.e /\ Same(ev.ty, ev.res.v, Project(ev.ty, ev.tn, d.v))
    [] ev.op = "big" ->          \* large input, judged by the memory it took
         ev.alloc <= 1024 + 64 * ev.len   \* in KB, len in KB
    [] ev.op = "ints" ->         \* integers vs: encoding and decoding of each
         \A i \in 1..Len(ev.vs) :
            LET v == ev.vs[i] IN
            /\ ev.enc[i] = (IF IsZeroBytes(v) THEN <<EmptyBit + Base(ev.k)>>
                            ELSE <<Base(ev.k)>> \o Compress(v, ev.k \in SIntKinds))
            /\ ev.dec[i] = v
            /\ Len(ev.enc[i]) <= 1 + MaxGroups(Width(ev.k))
    [] ev.op = "groups" ->       \* arbitrary groups read as an integer
         LET d == ReadCompressed(ev.inp, 1, Width(ev.k), ev.k \in SIntKinds) IN
         CASE d.k \in {"long", "big"} -> ev.res.e
           [] d.k = "ok" -> IF d.canon THEN ~ev.res.e /\ ev.res.v = d.v ELSE ev.res.e \/ ev.res.v = d.v
           [] d.k = "end" -> ev.res.e
           [] OTHER -> TRUE
    [] OTHER -> FALSE            \* crash, hang

Init == tid \in 1..Len(Traces) /\ l = 0 /\ ok = TRUE

Next ==
  /\ ok /\ l < Len(Traces[tid].evs)
  /\ l' = l + 1
  /\ ok' = Check(Traces[tid].evs[l + 1])
  /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

Accepted == ok
=============================================================================
