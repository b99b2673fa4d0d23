----------------------------- MODULE TraceBase -----------------------------
(* Validation of recorded observations: line l of the trace file is a record of
   what the implementation did. A record that carries "crash" (memory error,
   abnormal end, time-out) is never a behaviour of the specification. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 32                      \* independent lanes, so that workers share the lines
Crashed(r) == "crash" \in DOMAIN r
Reject(r, why) == PrintT(<<"REJECT", r.id, why>>)
=============================================================================
