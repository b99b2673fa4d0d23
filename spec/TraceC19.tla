------------------------------ MODULE TraceC19 ------------------------------
(* Recorded debug texts: <<path, text>> for the whole message and some of its parts. A path
   is a sequence of <<"i", index>> and <<"k", key>>. The message is either the one the
   library wrote for r.v, or foreign bytes r.b. *)
EXTENDS DebugText, TraceBase
F == INSTANCE Formats
VARIABLE l
RECURSIVE Follow(_, _, _)
Follow(v, path, k) ==
  IF k > Len(path) THEN v
  ELSE LET s == path[k] IN
       Follow(IF s[1] = "i" THEN v[2][s[2] + 1] ELSE v[2][CHOOSE j \in 1..Len(v[2]) : v[2][j][1] = s[2]][2], path, k + 1)
Judge(r, v) == r.same /\ r.shown # <<>> /\ \A i \in 1..Len(r.shown) : Describes(r.p, Follow(v, r.shown[i][1], 1), r.shown[i][2])
OK(r) == IF "b" \in DOMAIN r THEN r.open = "ok" /\ F!IsMessage(r.p, r.b) /\ Judge(r, F!MeaningOf(r.p, r.b))
         ELSE IF r.open # "ok" THEN ~Representable(r.p, r.mk, r.nk) /\ r.open = "S"
         ELSE Judge(r, r.v)
Init == l \in 1..Lanes
Step == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
           IF Crashed(r) THEN Reject(r, "crash")
           ELSE IF OK(r) THEN TRUE ELSE Reject(r, r.p)
        /\ l' = l + Lanes
Next == Step \/ (l > Len(Trace) /\ UNCHANGED l)
Spec == Init /\ [][Next]_l
=============================================================================
