------------------------------ MODULE TraceC14 ------------------------------
(* Recorded histories of reader objects. Line: p protocol, n slots, msgs[m] the values
   written, nodes the distinct things read, steps = <<op, outcome, shown>> where shown[i]
   is 0 or the index in nodes of what reading object i gave after the step. Every object
   the lifetime machine calls usable was read, and showed its value. *)
EXTENDS Values, LifetimeMachine, TraceBase
VARIABLES l, k, st

RECURSIVE At(_, _)
At(v, path) == IF path = <<>> THEN v
               ELSE At(IF v[1] = "a" THEN v[2][path[1]] ELSE v[2][path[1]][2], Tail(path))
ShowsPart(p, o, v, x) ==
  CASE o.ty = "keys" -> v[1] = "m" /\ Len(x) = Len(v[2]) /\ {x[i] : i \in 1..Len(x)} = {v[2][i][1] : i \in 1..Len(v[2])}
    [] o.ty = "str" -> v[1] = "s" /\ x = v[2]
    [] o.ty = "blob" -> v[1] = "x" /\ x = v[2]
    [] OTHER -> Matches(p, v, x)
StepOK(r, s) ==
  /\ Enabled(st, s[1]) /\ s[2] = "ok"
  /\ LET after == Effect(st, s[1]) IN
     \A i \in 1..r.n :
       IF Usable(after, i)
       THEN s[3][i] > 0 /\ LET o == after.sl[i] IN ShowsPart(r.p, o, At(r.msgs[o.msg], o.path), r.nodes[s[3][i]])
       ELSE s[3][i] = 0
Fresh(n) == IF n <= Len(Trace) /\ "n" \in DOMAIN Trace[n] THEN NewState(Trace[n].n) ELSE NewState(0)
Enter(n) == l' = n /\ k' = 1 /\ st' = Fresh(n)
Step == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
           IF Crashed(r) THEN Reject(r, "crash") /\ Enter(l + Lanes)
           ELSE IF k > Len(r.steps) THEN Enter(l + Lanes)
           ELSE IF StepOK(r, r.steps[k]) THEN l' = l /\ k' = k + 1 /\ st' = Effect(st, r.steps[k][1])
           ELSE Reject(r, <<"step", k, r.steps[k]>>) /\ Enter(l + Lanes)
Init == l \in 1..Lanes /\ k = 1 /\ st = Fresh(l)
Next == Step \/ (l > Len(Trace) /\ UNCHANGED <<l, k, st>>)
Spec == Init /\ [][Next]_<<l, k, st>>
=============================================================================
