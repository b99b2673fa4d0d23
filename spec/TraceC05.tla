------------------------------ MODULE TraceC05 ------------------------------
(* Messages the Zera writer produced: value written, inline threshold, bytes. *)
EXTENDS ZeraFormat, TraceBase
VARIABLE l

Min(a, b) == IF a < b THEN a ELSE b
WriterConforms(r) == r.out = "ok" /\ r.same /\ CanonicalMessage(r.bytes, r.v, Min(r.limit, 12))

Init == l \in 1..Lanes
Next == \/ /\ l <= Len(Trace)
           /\ LET r == Trace[l] IN
                IF Crashed(r) THEN Reject(r, "crash")
                ELSE IF WriterConforms(r) THEN TRUE ELSE Reject(r, "wire format")
           /\ l' = l + Lanes
        \/ l > Len(Trace) /\ UNCHANGED l
Spec == Init /\ [][Next]_l
=============================================================================
