------------------------------ MODULE TraceC17 ------------------------------
(* FlexBuffers interoperability. "w": bytes the writer produced for v; "r": what the
   reader shows for foreign bytes. *)
EXTENDS FlexFormat, TraceBase
VARIABLE l
Allowed(r) ==
  CASE r.dir = "w" -> r.out = "ok" /\ Denotes([B |-> r.b], r.v)
    [] r.dir = "r" -> LET c == [B |-> r.b] IN
                      OneMessage(c) /\ r.nodes # <<>> /\ \A i \in 1..Len(r.nodes) : Matches("F", Meaning(c), r.nodes[i])
    [] OTHER -> FALSE
Init == l \in 1..Lanes
Next == \/ /\ l <= Len(Trace)
           /\ LET r == Trace[l] IN
                IF Crashed(r) THEN Reject(r, "crash")
                ELSE IF Allowed(r) THEN TRUE ELSE Reject(r, r.dir)
           /\ l' = l + Lanes
        \/ l > Len(Trace) /\ UNCHANGED l
Spec == Init /\ [][Next]_l
=============================================================================
