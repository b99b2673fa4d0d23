------------------------------ MODULE TraceC21 ------------------------------
(* CBOR beside the other protocols. "w": bytes the writer produced for v; "r": what the
   reader shows for foreign bytes; "t": a chain of translations from foreign bytes. *)
EXTENDS CborFormat, TraceBase
VARIABLE l

RECURSIVE Fits(_, _)
Fits(p, v) ==
  CASE v[1] = "a" -> \A i \in 1..Len(v[2]) : Fits(p, v[2][i])
    [] v[1] = "m" -> \A i \in 1..Len(v[2]) :
                       Representable(p, Len(v[2][i][1]), \E j \in 1..Len(v[2][i][1]) : v[2][i][1][j] = 0) /\ Fits(p, v[2][i][2])
    [] OTHER -> TRUE
(* Strings in chunks cannot be viewed: a reader may say so instead of showing the value. *)
RECURSIVE Chunked(_, _, _)
Chunked(c, h, node) ==
  LET k == Kind(c, h)
      o == node[2]
  IN CASE k \in {"s", "x"} /\ Indef(Bt(c, h[1])) -> node = <<<<>>, <<"E", "D">>>> \/ (o[1] = k /\ o[2] = Payload(c, h))
       [] k = "a" -> LET es == Items(c, h) IN
                     o[1] = "a" /\ Len(o[2]) = Len(es) /\ \A i \in 1..Len(es) : Chunked(c, <<es[i][1], h[2], FALSE>>, o[2][i])
       [] k = "m" -> LET es == Entries(c, h) IN
                     /\ o[1] = "m" /\ Len(o[2]) = Len(es)
                     /\ \A i \in 1..Len(es) : o[2][i][1] = Payload(c, es[i][1]) /\ Chunked(c, es[i][2], o[2][i][2])
       [] OTHER -> Matches("M", Decode(c, h), node)
Allowed(r) ==
  LET c == [B |-> r.b] IN
  CASE r.dir = "w" -> r.out = "ok" /\ Denotes(c, r.v)
    [] r.dir = "r" -> /\ OneMessage(c) /\ r.nodes # <<>>
                      /\ \A i \in 1..Len(r.nodes) :
                           IF Contiguous(c, RootOf(c)) THEN Matches("M", Decode(c, RootOf(c)), r.nodes[i])
                           ELSE Chunked(c, RootOf(c), r.nodes[i])
    [] r.dir = "t" -> /\ OneMessage(c) /\ Contiguous(c, RootOf(c)) /\ r.steps # <<>>
                      /\ LET v == Decode(c, RootOf(c)) IN
                         \A i \in 1..Len(r.steps) :
                           LET s == r.steps[i] IN
                           IF Fits(s[1], v) THEN s[2] = "ok" /\ SameLogical(v, s[3]) ELSE s[2] = "S"
    [] OTHER -> FALSE

Init == l \in 1..Lanes
Next == \/ /\ l <= Len(Trace)
           /\ LET r == Trace[l] IN
                IF Crashed(r) THEN Reject(r, "crash")
                ELSE IF Allowed(r) THEN TRUE ELSE Reject(r, r.dir)
           /\ l' = l + Lanes
        \/ l > Len(Trace) /\ UNCHANGED l
Spec == Init /\ [][Next]_l
=============================================================================
