------------------------------ MODULE TraceC02 ------------------------------
(* Chains of translations. State: the logical value the current reader stands for.
     <<"start", p, outcome>>      the value was written with protocol p
     <<"from", p, bytes>>         a message another writer might have made was opened
     <<"idx", i>>, <<"get", key>> the reader of a sub-value becomes current
     <<"tr", p, outcome, node>>   it was translated to p, and the result shows node *)
EXTENDS Formats, TraceBase
VARIABLES l, k, cv

KeyLen(key) == IF key # <<>> /\ key[1] = -9 THEN key[2] ELSE Len(key)
HasNul(key) == (key = <<>> \/ key[1] # -9) /\ \E i \in 1..Len(key) : key[i] = 0
RECURSIVE Fits(_, _)
Fits(p, v) ==
  CASE v[1] = "a" -> \A i \in 1..Len(v[2]) : Fits(p, v[2][i])
    [] v[1] = "m" -> \A i \in 1..Len(v[2]) : Representable(p, KeyLen(v[2][i][1]), HasNul(v[2][i][1])) /\ Fits(p, v[2][i][2])
    [] OTHER -> TRUE
SubAt(v, key) == v[2][CHOOSE i \in 1..Len(v[2]) : v[2][i][1] = key][2]

StepOK(s) ==
  CASE s[1] = "start" -> s[3] = (IF Fits(s[2], cv) THEN "ok" ELSE "S")
    [] s[1] = "from" -> IsMessage(s[2], s[3])
    [] s[1] \in {"idx", "get"} -> TRUE
    [] s[1] = "tr" -> IF Fits(s[2], cv) THEN s[3] = "ok" /\ SameLogical(cv, s[4]) ELSE s[3] = "S"
    [] OTHER -> FALSE
NextLine == l' = l + Lanes /\ k' = 0 /\ cv' = <<>>
Begin == /\ l <= Len(Trace) /\ k = 0
         /\ LET r == Trace[l] IN
              IF Crashed(r) THEN Reject(r, "crash") /\ NextLine
              ELSE l' = l /\ k' = 1 /\ cv' = r.v
Step == /\ l <= Len(Trace) /\ k >= 1
        /\ LET r == Trace[l] IN
             IF k > Len(r.steps) THEN NextLine
             ELSE LET s == r.steps[k] IN
                  IF StepOK(s)
                  THEN /\ l' = l /\ k' = k + 1
                       /\ cv' = (CASE s[1] = "from" -> MeaningOf(s[2], s[3])
                                   [] s[1] = "idx" -> cv[2][s[2] + 1]
                                   [] s[1] = "get" -> SubAt(cv, s[2])
                                   [] OTHER -> cv)
                  ELSE Reject(r, <<"step", k, s[1], s[2]>>) /\ NextLine
Init == l \in 1..Lanes /\ k = 0 /\ cv = <<>>
Next == Begin \/ Step \/ (l > Len(Trace) /\ UNCHANGED <<l, k, cv>>)
Spec == Init /\ [][Next]_<<l, k, cv>>
=============================================================================
