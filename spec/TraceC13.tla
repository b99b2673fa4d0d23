------------------------------ MODULE TraceC13 ------------------------------
(* Recorded ZBuffer histories. Line: n slots, res[r] = <<kind, bytes>> of every resource
   handed over, steps = <<op, outcome, shown, released>>. kind "d" runs a deleter that was
   observed, "o" frees unobserved (vector), "k" keeps (no-op deleter), "0" is a null
   pointer of size 0. shown[i] = <<>> for a slot without a ZBuffer, else what size, data,
   buf, the copy, the debug string and empty() gave. left: allocations never given back.
   Lines with "dump" record hexdump(w) of bytes; "rowsof", some rows of a long one. *)
EXTENDS ZBufferMachine, TraceBase
VARIABLES l, k, sl

BLen(b) == IF b # <<>> /\ b[1] = -9 THEN b[2] ELSE Len(b)            \* long contents are digests
Bytes(r, x) == IF x = Empty THEN <<>> ELSE r.res[x][2]
Shows(r, x, o) == IF x = None THEN o = <<>>
                  ELSE LET b == Bytes(r, x) IN Len(o) = 6 /\ o = <<BLen(b), b, b, b, b, b = <<>>>>
Observed(r, s) == SelectSeq(s, LAMBDA x : r.res[x][1] = "d")
StepOK(r, st) ==
  /\ Enabled(sl, st[1])
  /\ st[2] = (IF st[1][1] = "bad" THEN "I" ELSE "ok")
  /\ LET after == Effect(sl, st[1]) IN \A i \in 1..r.n : Shows(r, after[i], st[3][i])
  /\ st[4] = Observed(r, Released(sl, st[1]))
Blank(r) == [i \in 1..r.n |-> None]
Enter(n) == l' = n /\ k' = 1 /\ sl' = (IF n <= Len(Trace) /\ "n" \in DOMAIN Trace[n] THEN Blank(Trace[n]) ELSE <<>>)
Step == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
           IF Crashed(r) THEN Reject(r, "crash") /\ Enter(l + Lanes)
           ELSE IF "dump" \in DOMAIN r
           THEN (IF r.dump = Hexdump(r.bytes, r.w) THEN TRUE ELSE Reject(r, "hexdump")) /\ Enter(l + Lanes)
           ELSE IF "rowsof" \in DOMAIN r
           THEN (IF RowsOK(r.rowsof, r.w, r.lines, r.rows) THEN TRUE ELSE Reject(r, "long hexdump")) /\ Enter(l + Lanes)
           ELSE IF k > Len(r.steps)
           THEN (IF sl = Blank(r) /\ r.left = 0 THEN TRUE ELSE Reject(r, <<"left over", r.left>>)) /\ Enter(l + Lanes)
           ELSE IF StepOK(r, r.steps[k])
           THEN l' = l /\ k' = k + 1 /\ sl' = Effect(sl, r.steps[k][1])
           ELSE Reject(r, <<"step", k, r.steps[k][1]>>) /\ Enter(l + Lanes)
Init == l \in 1..Lanes /\ k = 1 /\ sl = (IF l <= Len(Trace) /\ "n" \in DOMAIN Trace[l] THEN Blank(Trace[l]) ELSE <<>>)
Next == Step \/ (l > Len(Trace) /\ UNCHANGED <<l, k, sl>>)
Spec == Init /\ [][Next]_<<l, k, sl>>
=============================================================================
