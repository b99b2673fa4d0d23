------------------------------ MODULE TraceC10 ------------------------------
(* Tensors written, possibly translated, and read back. Line: code, shape, data (bytes in
   row-major index order), order of storage, node = what the plain reader shows at the
   tensor's place, reads = what every tensor reader gave: <<"ok", shape, data>> or an error. *)
EXTENDS Tensor, TraceBase
VARIABLE l
OK(r) == /\ SameLogical(Wire(r.code, r.shape, r.order, r.data), r.node)
         /\ Len(r.reads) > 0
         /\ \A i \in 1..Len(r.reads) : r.reads[i] = <<"ok", r.shape, r.data>>
Init == l \in 1..Lanes
Step == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
           IF Crashed(r) THEN Reject(r, "crash") ELSE IF OK(r) THEN TRUE ELSE Reject(r, "read back differs")
        /\ l' = l + Lanes
Next == Step \/ (l > Len(Trace) /\ UNCHANGED l)
Spec == Init /\ [][Next]_l
=============================================================================
