------------------------------ MODULE TraceC16 ------------------------------
(* Recorded encodings ["e", bytes, text] and decodings ["d", text, bytes] or ["x", text]
   (an error), several per line. *)
EXTENDS Base64, TraceBase
VARIABLE l
OK(o) == CASE o[1] = "e" -> o[3] = Encode(o[2]) /\ Decode(o[3]) = o[2]
           [] o[1] = "d" -> Readable(o[2]) /\ o[3] = Decode(o[2])
           [] o[1] = "x" -> ~Readable(o[2])
           [] OTHER -> FALSE
Init == l \in 1..Lanes
Step == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
           IF Crashed(r) THEN Reject(r, "crash")
           ELSE \A i \in 1..Len(r.ops) : IF OK(r.ops[i]) THEN TRUE ELSE Reject(r, r.ops[i])
        /\ l' = l + Lanes
Next == Step \/ (l > Len(Trace) /\ UNCHANGED l)
Spec == Init /\ [][Next]_l
=============================================================================
