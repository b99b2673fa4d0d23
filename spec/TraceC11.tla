------------------------------ MODULE TraceC11 ------------------------------
(* Messages read as tensors in many ways. Line: v the message's value (as written, or, for
   corrupted bytes, as the plain reader shows it), out[2k-1] and out[2k] the outcomes of the
   owning and the view form of request k: <<"ok", shape, data>> or <<"D">>. *)
EXTENDS Tensor, TraceBase
VARIABLE l
(* library, dtype code, rank, rows, cols, storage order; as in the driver *)
Reqs == << <<"x", 0, -1, -1, -1, "row">>, <<"x", 0, 2, -1, -1, "row">>, <<"x", 10, -1, -1, -1, "row">>, <<"x", 10, 2, -1, -1, "row">>,
           <<"x", 10, 1, -1, -1, "row">>, <<"x", 11, -1, -1, -1, "row">>, <<"x", 11, 3, -1, -1, "row">>, <<"x", 11, 0, -1, -1, "row">>,
           <<"x", 13, -1, -1, -1, "row">>, <<"x", 13, 2, -1, -1, "row">>, <<"x", 2, -1, -1, -1, "row">>, <<"x", 14, -1, -1, -1, "row">>,
           <<"e", 0, 2, -1, -1, "col">>, <<"e", 10, 2, -1, -1, "col">>, <<"e", 10, 2, 2, 3, "col">>, <<"e", 11, 2, -1, -1, "row">>,
           <<"e", 11, 2, 2, -1, "col">>, <<"e", 11, 2, -1, 3, "col">>, <<"e", 13, 2, -1, -1, "col">>, <<"e", 0, 2, 3, 2, "row">> >>
Unknown(v) == IF v[1] = "A" THEN TRUE ELSE v[1] = "a" /\ Len(v[2]) >= 3 /\ v[2][2][1] = "A"
OutOK(v, q, o) ==
  IF o[1] = "ok"
  THEN /\ May(v, q[2], q[3], q[4], q[5])
       /\ LET sh == Dims(v[2][2][2]) IN o = <<"ok", sh, FromStorage(q[6], sh, SizeOf(q[2]), v[2][3][2])>>
  ELSE o = <<"D">> /\ ~Must(v, q[2], q[3], q[4], q[5])
(* in a corrupted message further dimensions may be hidden from the plain reader *)
Loose(v, o) == Unknown(v) /\ o[1] \in {"ok", "D"}
(* isTensor: yes only for an array beginning with the dtype code, an array and a blob; no or
   an error otherwise. *)
IsCodes == <<0, 10, 11, 13, 2, 7>>
IsOK(r, v, c, o) ==
  LET triple == /\ v[1] = "a" /\ Len(v[2]) >= 3
                /\ IsIntKind(v[2][1]) /\ Num(v[2][1]) = <<FALSE, ZeroExtend(<<c>>)>>
                /\ v[2][2][1] \in {"a", "A"} /\ v[2][3][1] = "x"
      torn == "raw" \in DOMAIN r /\ v[1] = "a" /\ \E i \in 1..Len(v[2]) : v[2][i][1] = "E"
  IN \/ o = 1 /\ triple
     \/ o \in {0, -1} /\ ~(triple /\ v[2][1][1] = "i")
     \/ "raw" \in DOMAIN r /\ o = -1
     \/ torn /\ o \in {0, 1}
MapReqs == << <<"x", 0, -1, -1, -1, "row">>, <<"x", 10, -1, -1, -1, "row">>, <<"x", 10, 2, -1, -1, "row">>, <<"x", 11, -1, -1, -1, "row">>,
              <<"x", 11, 1, -1, -1, "row">>, <<"x", 13, -1, -1, -1, "row">>, <<"e", 0, 2, -1, -1, "col">>, <<"e", 10, 2, -1, -1, "col">>,
              <<"e", 10, 2, 2, 3, "col">>, <<"e", 11, 2, -1, -1, "row">>, <<"e", 13, 2, -1, -1, "col">> >>
MapOK(r) == LET t == Triple(r.v) IN
            /\ "stray" \notin DOMAIN r
            /\ Len(r.is) = Len(IsCodes) /\ \A i \in 1..Len(r.is) : IsOK(r, t, IsCodes[i], r.is[i])
            /\ Len(r.out) = 2 * Len(MapReqs)
            /\ \A i \in 1..Len(r.out) : OutOK(t, MapReqs[(i + 1) \div 2], r.out[i])
LineOK(r) == /\ Len(r.is) = Len(IsCodes) /\ \A i \in 1..Len(r.is) : IsOK(r, r.v, IsCodes[i], r.is[i])
             /\ Len(r.out) = 2 * Len(Reqs)
             /\ \A i \in 1..Len(r.out) : OutOK(r.v, Reqs[(i + 1) \div 2], r.out[i]) \/ ("raw" \in DOMAIN r /\ Loose(r.v, r.out[i]))
Bad(r) == {i \in 1..Len(r.out) : ~(OutOK(r.v, Reqs[(i + 1) \div 2], r.out[i]) \/ ("raw" \in DOMAIN r /\ Loose(r.v, r.out[i])))}
Init == l \in 1..Lanes
Step == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
           IF Crashed(r) THEN Reject(r, "crash") ELSE IF "map" \in DOMAIN r THEN IF MapOK(r) THEN TRUE ELSE Reject(r, "as a map")
           ELSE IF LineOK(r) THEN TRUE ELSE Reject(r, <<"requests", Bad(r)>>)
        /\ l' = l + Lanes
Next == Step \/ (l > Len(Trace) /\ UNCHANGED l)
Spec == Init /\ [][Next]_l
=============================================================================
