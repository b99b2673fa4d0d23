---------------------------- MODULE TraceReader ----------------------------
(* Recorded reading sessions on written values: v was written with protocol p and
   read through handles. One step per read; hs maps handles to the values they must
   stand for. At the end the buffer must be unchanged. *)
EXTENDS ValueReader, TraceBase
VARIABLES l, k, hs

NextLine == l' = l + Lanes /\ k' = 0 /\ hs' = <<>>
Open == /\ l <= Len(Trace) /\ k = 0
        /\ LET r == Trace[l] IN
             IF Crashed(r) THEN Reject(r, "crash") /\ NextLine
             ELSE IF r.open # "ok" THEN Reject(r, "cannot be written or opened") /\ NextLine
             ELSE l' = l /\ k' = 1 /\ hs' = <<r.v>>
Read == /\ l <= Len(Trace) /\ k >= 1
        /\ LET r == Trace[l] IN
             IF k > Len(r.ops) THEN (IF r.same THEN TRUE ELSE Reject(r, "buffer changed by reads")) /\ NextLine
             ELSE LET o == r.ops[k]
                      h == hs[o[2]]
                  IN IF OpAllowed(r.p, h, o)
                     THEN /\ l' = l /\ k' = k + 1
                          /\ hs' = IF OpensHandle(o) THEN Append(hs, Target(h, o)) ELSE hs
                     ELSE Reject(r, <<"operation", k, o>>) /\ NextLine
Init == l \in 1..Lanes /\ k = 0 /\ hs = <<>>
Next == Open \/ Read \/ (l > Len(Trace) /\ UNCHANGED <<l, k, hs>>)
Spec == Init /\ [][Next]_<<l, k, hs>>
=============================================================================
