------------------------------ MODULE TraceC01 ------------------------------
(* Round trip: each line is one value written with one protocol and read back. *)
EXTENDS Values, TraceBase
VARIABLE l

RoundTrip(r) ==
  IF Representable(r.p, r.mk, r.nk)
  THEN r.out = "ok" /\ Len(r.nodes) >= 1 /\ \A i \in 1..Len(r.nodes) : Matches(r.p, r.v, r.nodes[i])
  ELSE r.out = "S"

Init == l \in 1..Lanes
Next == \/ /\ l <= Len(Trace)
           /\ LET r == Trace[l] IN
                IF Crashed(r) THEN Reject(r, "crash")
                ELSE IF RoundTrip(r) THEN TRUE ELSE Reject(r, "round trip")
           /\ l' = l + Lanes
        \/ l > Len(Trace) /\ UNCHANGED l
Spec == Init /\ [][Next]_l
=============================================================================
