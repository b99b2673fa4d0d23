------------------------------ MODULE TraceC06 ------------------------------
(* Reading arbitrary bytes as Zera. A session opens the bytes and performs reads on
   handles; the specification's state is where each handle points (hs). *)
EXTENDS ZeraFormat, KeyCursor, TraceBase
VARIABLES l, k, hs

KindSeq == <<"n", "b", "i", "u", "d", "s", "x", "a", "m">>

OpenAllowed(r) ==
  IF ~HeaderPrefixOK(r.b) THEN r.open = "D"
  ELSE IF ~RegionsOK(r.b) THEN r.open = "D"
  ELSE IF ~RootOK(r.b) THEN r.open \in {"ok", "D"}     \* if opened, every read must fail
  ELSE r.open = "ok"

FloatOK(c, h, w, out) ==
  IF IsFloatRef(c, h)
  THEN Len(out) = w + 1 /\ out[1] = 1 /\
       (IF w = 8 THEN SameF64(Word(c, h), Tail(out)) ELSE SameF32(F64toF32(Word(c, h)), Tail(out)))
  ELSE out = Err

(* Keys shown before the listing failed belong to complete entries, in order. *)
PartOK(c, h, out) ==
  LET es == IF InEnv(c, h, 16) /\ KindOfTag(c, h) = "m" /\ FlagsOK(c, h) /\ ObjHead(c, h) THEN Entries(c, h) ELSE <<>>
  IN Len(out) - 1 <= Len(es) /\ \A i \in 1..(Len(out) - 1) : out[i + 1] = EntryKey(c, es[i])
(* o = <<operation, handle number, [argument,] outcome>> *)
OpAllowed(c, h, o) ==
  LET op == o[1]
      out == o[Len(o)]
  IN CASE op = "kind" -> \A i \in 1..9 : out[i] \in IsKind(c, h, KindSeq[i])
       [] op = "i8"  -> out \in AsSigned(c, h, 1)
       [] op = "i16" -> out \in AsSigned(c, h, 2)
       [] op = "i32" -> out \in AsSigned(c, h, 4)
       [] op = "i64" -> out \in AsSigned(c, h, 8)
       [] op = "u8"  -> out \in AsUnsigned(c, h, 1)
       [] op = "u16" -> out \in AsUnsigned(c, h, 2)
       [] op = "u32" -> out \in AsUnsigned(c, h, 4)
       [] op = "u64" -> out \in AsUnsigned(c, h, 8)
       [] op = "f32" -> FloatOK(c, h, 4, out)
       [] op = "f64" -> FloatOK(c, h, 8, out)
       [] op = "bool" -> out \in AsBool(c, h)
       [] op = "str" -> out \in AsStr(c, h)
       [] op = "view" -> out \in AsStr(c, h)
       [] op = "blob" -> out \in AsBlob(c, h)
       [] op = "size" -> out \in ArrSize(c, h)
       [] op = "keys" -> out \in Keys(c, h)
       [] op = "part" -> PartOK(c, h, out)
       [] op = "iter" -> o[3] = <<0>> \/ (o[3] \in Keys(c, h) /\ (o[3] = Err \/ WalkOK(Tail(o[3]), out)))
       [] op = "has" -> out \in Contains(c, h, o[3])
       [] op = "idx" -> IF out = Err THEN Err \in Index(c, h, o[3]) ELSE out = <<1>> /\ \E x \in Index(c, h, o[3]) : x # Err
       [] op = "get" -> IF out = Err THEN Err \in Lookup(c, h, o[3]) ELSE out = <<1>> /\ \E x \in Lookup(c, h, o[3]) : x # Err
       [] OTHER -> FALSE
Target(c, h, o) ==
  LET s == IF o[1] = "idx" THEN Index(c, h, o[3]) ELSE Lookup(c, h, o[3])
  IN (CHOOSE x \in s : x # Err)[2]
OpensHandle(o) == o[1] \in {"idx", "get"} /\ o[Len(o)] = <<1>>

NextLine == l' = l + Lanes /\ k' = 0 /\ hs' = <<>>
Open == /\ l <= Len(Trace) /\ k = 0
        /\ LET r == Trace[l] IN
             IF Crashed(r) THEN Reject(r, "crash") /\ NextLine
             ELSE IF ~OpenAllowed(r) THEN Reject(r, "open") /\ NextLine
             ELSE IF r.open = "ok" THEN l' = l /\ k' = 1 /\ hs' = <<HdrRoot(r.b)>>
             ELSE NextLine
Read == /\ l <= Len(Trace) /\ k >= 1
        /\ LET r == Trace[l] IN
             IF k > Len(r.ops) THEN NextLine
             ELSE LET o == r.ops[k]
                      c == Ctx(r.b)
                      h == hs[o[2]]
                  IN IF OpAllowed(c, h, o)
                     THEN /\ l' = l /\ k' = k + 1
                          /\ hs' = IF OpensHandle(o) THEN Append(hs, Target(c, h, o)) ELSE hs
                     ELSE Reject(r, <<"operation", k, o>>) /\ NextLine
Init == l \in 1..Lanes /\ k = 0 /\ hs = <<>>
Next == Open \/ Read \/ (l > Len(Trace) /\ UNCHANGED <<l, k, hs>>)
Spec == Init /\ [][Next]_<<l, k, hs>>
=============================================================================
