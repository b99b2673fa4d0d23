------------------------------ MODULE TraceC18 ------------------------------
(* Every thread's work is judged against the same message and against the same function
   from what was asked to what came out (memo), which starts from what is known and grows
   with each answer: serializing a value with a protocol, the debug text, Base64, tensors
   ("w"); reads of the shared reader or a copy ("r"), of a shared sub-value ("s"), and
   translations of it ("t"). A data race is a crash line. *)
EXTENDS Values, TraceBase
VARIABLES l, th, k, memo
Known(r) == [x \in {r.know[i][2] : i \in 1..Len(r.know)} |-> r.know[CHOOSE i \in 1..Len(r.know) : r.know[i][2] = x][3]]
OpOK(r, m, op) ==
  CASE op[1] = "w" -> op[3] # "X" /\ (op[2] \in DOMAIN m => m[op[2]] = op[3])
    [] op[1] = "r" -> Matches(r.p, r.v, op[2])
    [] op[1] = "s" -> Matches(r.p, r.subs[op[2]], op[3])
    [] op[1] = "t" -> IF Representable(op[2], r.mk, r.nk) THEN op[3] = "ok" /\ SameLogical(r.v, op[4]) ELSE op[3] = "S"
    [] OTHER -> FALSE
NextLine == l' = l + Lanes /\ th' = 0 /\ k' = 1 /\ memo' = <<>>
Step == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
           IF Crashed(r) THEN Reject(r, "crash") /\ NextLine
           ELSE IF th = 0 THEN (IF r.open = (IF Representable(r.p, r.mk, r.nk) THEN "ok" ELSE "S") THEN TRUE ELSE Reject(r, "open"))
                               /\ l' = l /\ th' = 1 /\ k' = 1 /\ memo' = Known(r)
           ELSE IF th > Len(r.threads) THEN NextLine
           ELSE IF k > Len(r.threads[th]) THEN l' = l /\ th' = th + 1 /\ k' = 1 /\ memo' = memo
           ELSE LET op == r.threads[th][k] IN
                IF OpOK(r, memo, op)
                THEN /\ l' = l /\ th' = th /\ k' = k + 1
                     /\ memo' = (IF op[1] = "w" THEN [x \in DOMAIN memo \cup {op[2]} |-> IF x = op[2] THEN op[3] ELSE memo[x]] ELSE memo)
                ELSE Reject(r, <<"thread", th, "step", k>>) /\ NextLine
Init == l \in 1..Lanes /\ th = 0 /\ k = 1 /\ memo = <<>>
Next == Step \/ (l > Len(Trace) /\ UNCHANGED <<l, th, k, memo>>)
Spec == Init /\ [][Next]_<<l, th, k, memo>>
=============================================================================
