------------------------------ MODULE TraceC07 ------------------------------
(* MessagePack interoperability. "w": bytes the writer produced for v; "r": what the
   reader shows for foreign bytes; "bigw"/"bigr": the same for messages too long to
   list (head bytes, total length, and whether the rest is the expected body). *)
EXTENDS MsgPackFormat, TraceBase
VARIABLE l

DistinctKeys(v) ==
  LET RECURSIVE D(_)
      D(x) == CASE x[1] = "a" -> \A i \in 1..Len(x[2]) : D(x[2][i])
                [] x[1] = "m" -> /\ Cardinality({x[2][i][1] : i \in 1..Len(x[2])}) = Len(x[2])
                                 /\ \A i \in 1..Len(x[2]) : D(x[2][i][2])
                [] OTHER -> TRUE
  IN D(v)
BigHead(r) == LET c == [B |-> r.pre] IN
  /\ KindOfMarker(Bt(c, 0)) = r.k
  /\ Announced(c, 0) = r.n
  /\ r.len = 1 + FieldSize(Bt(c, 0)) + r.body
Allowed(r) ==
  CASE r.dir = "w" -> r.out = "ok" /\ Denotes([B |-> r.b], r.v)
    [] r.dir = "r" -> LET c == [B |-> r.b]
                          v == Decode(c, RootOf(c))
                      IN OneMessage(c) /\ DistinctKeys(v) /\ r.nodes # <<>> /\ \A i \in 1..Len(r.nodes) : Matches("M", v, r.nodes[i])
    [] r.dir = "bigw" -> r.out = "ok" /\ r.tail /\ BigHead(r)
    [] r.dir = "bigr" -> BigHead(r) /\ r.out = <<1, r.n, 1>>
    [] OTHER -> FALSE

Init == l \in 1..Lanes
Next == \/ /\ l <= Len(Trace)
           /\ LET r == Trace[l] IN
                IF Crashed(r) THEN Reject(r, "crash")
                ELSE IF Allowed(r) THEN TRUE ELSE Reject(r, r.dir)
           /\ l' = l + Lanes
        \/ l > Len(Trace) /\ UNCHANGED l
Spec == Init /\ [][Next]_l
=============================================================================
