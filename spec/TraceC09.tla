------------------------------ MODULE TraceC09 ------------------------------
(* Recorded use of a protocol writer: one step per call, <<call..., outcome>> with
   outcome "ok", "S" (SerializationError) or "X" (another exception). A history
   ends at the first call that throws, or with finish ("F"). *)
EXTENDS WriterMachine, TraceBase
VARIABLES l, k, s

(* The outcomes allowed for call c in state s. For Zera every ill-formed call
   throws; a container started where no value may go may be refused at once or when
   it ends. Flex only promises to refuse a mismatched end. *)
Outcomes(p, c) ==
  IF Legal(s, c) THEN {"ok"}
  ELSE IF p = "Z" THEN (IF IsBegin(c) THEN {"ok", "S"} ELSE {"S"})
  ELSE IF p = "F" /\ Mismatched(s, c) THEN {"S", "X"} ELSE {}
FinishOK(r, c) ==
  LET out == c[Len(c)] IN
  IF ~CanFinish(s) THEN r.p = "Z" /\ out = "S"
  ELSE /\ (r.p = "M" => s.root # <<>>)
       /\ out = "ok" /\ r.nodes # <<>> /\ \A i \in 1..Len(r.nodes) : Matches(r.p, Result(s), r.nodes[i])

NextLine == l' = l + Lanes /\ k' = 1 /\ s' = Start
Step == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
           IF Crashed(r) THEN Reject(r, "crash") /\ NextLine
           ELSE IF k > Len(r.calls) THEN NextLine
           ELSE LET c == r.calls[k]
                    out == c[Len(c)]
                IN IF c[1] = "F" THEN (IF FinishOK(r, c) THEN TRUE ELSE Reject(r, "finish")) /\ NextLine
                   ELSE IF out \notin Outcomes(r.p, c) THEN Reject(r, <<"call", k, c>>) /\ NextLine
                   ELSE IF out # "ok" THEN NextLine
                   ELSE l' = l /\ k' = k + 1 /\ s' = Effect(s, c)
Init == l \in 1..Lanes /\ k = 1 /\ s = Start
Next == Step \/ (l > Len(Trace) /\ UNCHANGED <<l, k, s>>)
Spec == Init /\ [][Next]_<<l, k, s>>
=============================================================================
