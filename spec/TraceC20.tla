------------------------------ MODULE TraceC20 ------------------------------
(* Reading arbitrary bytes as CBOR: one session per line, one step per read;
   hs says which bytes each handle covers. "deep" lines summarise reads of a unit
   nested n times, for n far beyond what can be listed. *)
EXTENDS CborFormat, KeyCursor, TraceBase
VARIABLES l, k, hs

(* Keys shown before the listing failed belong to complete entries, in order. *)
PartOK(c, h, out) ==
  LET es == IF Kind(c, h) = "m" /\ HeadOK(c, h) THEN Entries(c, h) ELSE <<>>
  IN Len(out) - 1 <= Len(es) /\ \A i \in 1..(Len(out) - 1) : KeyIs(c, es[i][1], out[i + 1])
OpAllowed(c, h, o) ==
  LET op == o[1]
      out == o[Len(o)]
  IN CASE op = "kind" -> KindsAllowed(c, h, out)
       [] op = "i8"  -> out \in AsSigned(c, h, 1)
       [] op = "i16" -> out \in AsSigned(c, h, 2)
       [] op = "i32" -> out \in AsSigned(c, h, 4)
       [] op = "i64" -> out \in AsSigned(c, h, 8)
       [] op = "u8"  -> out \in AsUnsigned(c, h, 1)
       [] op = "u16" -> out \in AsUnsigned(c, h, 2)
       [] op = "u32" -> out \in AsUnsigned(c, h, 4)
       [] op = "u64" -> out \in AsUnsigned(c, h, 8)
       [] op = "f32" -> FloatAllowed(c, h, 4, out)
       [] op = "f64" -> FloatAllowed(c, h, 8, out)
       [] op = "bool" -> out \in AsBool(c, h)
       [] op = "str" -> out \in AsStr(c, h)
       [] op = "view" -> out \in AsView(c, h, "s")
       [] op = "blob" -> out \in AsView(c, h, "x")
       [] op = "size" -> out \in ArrSize(c, h)
       [] op = "keys" -> out \in Keys(c, h)
       [] op = "part" -> PartOK(c, h, out)
       [] op = "iter" -> o[3] = <<0>> \/ (o[3] \in Keys(c, h) /\ (o[3] = Err \/ WalkOK(Tail(o[3]), out)))
       [] op = "has" -> out \in Contains(c, h, o[3])
       [] op = "idx" -> IF out = Err THEN Err \in Index(c, h, o[3]) ELSE out = <<1>> /\ \E x \in Index(c, h, o[3]) : x # Err
       [] op = "get" -> IF out = Err THEN Err \in Lookup(c, h, o[3]) ELSE out = <<1>> /\ \E x \in Lookup(c, h, o[3]) : x # Err
       [] op = "dump" -> out = <<1>> \/ (out = Err /\ ~OneMessage(c))     \* the debug text: safe, any content
       [] OTHER -> FALSE
Target(c, h, o) ==
  LET s == IF o[1] = "idx" THEN Index(c, h, o[3]) ELSE Lookup(c, h, o[3])
  IN (CHOOSE x \in s : x # Err)[2]
OpensHandle(o) == o[1] \in {"idx", "get"} /\ o[Len(o)] = <<1>>

(* Expected observations of nested units, in the order recorded:
   isArray isMap arraySize [0] [last] contains("k") ["k"] mapKeys. A complete nest
   must answer; a cut one may answer what does not need the missing part. *)
DeepAllowed(r) ==
  LET a == r.deep \in {"a1", "a2", "a3", "a9", "i1", "t1"}
      m == r.deep \in {"m1", "im"}
      count == CASE r.deep = "a2" -> 2 [] r.deep = "a9" -> 3 [] OTHER -> 1
      nested == BoolOut(r.n > 1 /\ r.deep # "t1")
      o == [i \in 1..8 |-> r.ops[i][2]]
      full == <<BoolOut(a), BoolOut(~a),
                IF a THEN <<1, count>> ELSE Err,
                IF ~a THEN Err ELSE IF r.deep \in {"a2", "a9"} THEN <<1, 0>> ELSE nested,
                IF ~a THEN Err ELSE nested,
                BoolOut(m),
                IF m THEN nested ELSE Err,
                IF m THEN <<1, 1>> ELSE Err>>
      needed == {8} \cup (IF r.deep = "i1" THEN {3, 5} ELSE IF r.deep = "k1" THEN {7} ELSE {})
      Same(i) == o[i] = full[i] \/ (r.deep = "k1" /\ i = 6 /\ o[i] = Err)     \* no key is a string
  IN IF ~r.cut THEN \A i \in 1..8 : Same(i)
     ELSE \A i \in 1..8 : IF i \in needed THEN o[i] = Err ELSE Same(i) \/ o[i] = Err

NextLine == l' = l + Lanes /\ k' = 0 /\ hs' = <<>>
Open == /\ l <= Len(Trace) /\ k = 0
        /\ LET r == Trace[l] IN
             IF Crashed(r) THEN Reject(r, "crash") /\ NextLine
             ELSE IF "deep" \in DOMAIN r THEN (IF DeepAllowed(r) THEN TRUE ELSE Reject(r, "deep")) /\ NextLine
             ELSE IF r.open = "ok" THEN l' = l /\ k' = 1 /\ hs' = <<RootOf([B |-> r.b])>>
             ELSE (IF r.open = "D" /\ ~OneMessage([B |-> r.b]) THEN TRUE ELSE Reject(r, "open")) /\ NextLine
Read == /\ l <= Len(Trace) /\ k >= 1
        /\ LET r == Trace[l] IN
             IF k > Len(r.ops) THEN NextLine
             ELSE LET o == r.ops[k]
                      c == [B |-> r.b]
                      h == hs[o[2]]
                  IN IF OpAllowed(c, h, o)
                     THEN /\ l' = l /\ k' = k + 1
                          /\ hs' = IF OpensHandle(o) THEN Append(hs, Target(c, h, o)) ELSE hs
                     ELSE Reject(r, <<"operation", k, o>>) /\ NextLine
Init == l \in 1..Lanes /\ k = 0 /\ hs = <<>>
Next == Open \/ Read \/ (l > Len(Trace) /\ UNCHANGED <<l, k, hs>>)
Spec == Init /\ [][Next]_<<l, k, hs>>
=============================================================================
