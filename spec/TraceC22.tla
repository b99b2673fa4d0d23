------------------------------ MODULE TraceC22 ------------------------------
(* JSON. "w": what the writer made of v. "b": a reading session on any bytes, one step per
   read. "r": what a text shows, and the texts that show it again. "h": a writer history,
   one step per call. "t", "u": translations that begin at a text, or at a MessagePack
   message of v. *)
EXTENDS JsonFormat, WriterMachine, KeyCursor, TraceBase
VARIABLES l, k, hs, s

Ok(x) == <<1>> \o x
BoolOut(b) == IF b THEN <<1, 1>> ELSE <<1, 0>>
KindSeq == <<"n", "b", "i", "u", "d", "s", "x", "a", "m">>
KindsShown(v) == {v[1]} \cup (IF BlobShape(v) THEN {"x"} ELSE {})
KindsAllowed(v, outs) ==
  /\ \A i \in 1..9 : outs[i] \in {<<1, 0>>, <<1, 1>>}
  /\ LET ks == {KindSeq[i] : i \in {j \in 1..9 : outs[j] = <<1, 1>>}} IN
     IF IsIntKind(v) THEN IntKindsOK("M", v, ks) ELSE ks = KindsShown(v)
AsSigned(v, w) == IF IsIntKind(v) /\ FitsSigned(Num(v), w) THEN {Ok(v[2])} ELSE {Err}
(* "-0" is zero, and may be taken for a signed number only. *)
AsUnsigned(v, w) == IF IsIntKind(v) /\ FitsUnsigned(Num(v), w) THEN {Ok(v[2])} \cup (IF v[1] = "i" THEN {Err} ELSE {}) ELSE {Err}
FloatAllowed(v, w, out) ==
  IF v[1] # "d" THEN out = Err
  ELSE Len(out) = w + 1 /\ out[1] = 1 /\ (IF w = 8 THEN Tail(out) = v[2] ELSE SameF32(F64toF32(v[2]), Tail(out)))
Names(v) == [i \in 1..Len(v[2]) |-> v[2][i][1]]
FirstAt(v, name) == LET is == {i \in 1..Len(v[2]) : v[2][i][1] = name} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
KeysOf(v) == IF v[1] = "m" THEN Ok(Names(v)) ELSE Err
OpAllowed(v, o) ==
  LET op == o[1]
      out == o[Len(o)]
  IN CASE op = "kind" -> KindsAllowed(v, out)
       [] op = "i8"  -> out \in AsSigned(v, 1)
       [] op = "i16" -> out \in AsSigned(v, 2)
       [] op = "i32" -> out \in AsSigned(v, 4)
       [] op = "i64" -> out \in AsSigned(v, 8)
       [] op = "u8"  -> out \in AsUnsigned(v, 1)
       [] op = "u16" -> out \in AsUnsigned(v, 2)
       [] op = "u32" -> out \in AsUnsigned(v, 4)
       [] op = "u64" -> out \in AsUnsigned(v, 8)
       [] op = "f32" -> FloatAllowed(v, 4, out)
       [] op = "f64" -> FloatAllowed(v, 8, out)
       [] op = "bool" -> out = IF v[1] = "b" THEN BoolOut(v[2]) ELSE Err
       [] op \in {"str", "view"} -> out = IF v[1] = "s" THEN Ok(v[2]) ELSE Err
       [] op = "blob" -> out = IF BlobReadable(v) THEN Ok(Decode(BlobText(v))) ELSE Err
       [] op = "size" -> out = IF v[1] = "a" THEN <<1, Len(v[2])>> ELSE Err
       [] op = "keys" -> out = KeysOf(v)
       [] op = "part" -> v[1] # "m" /\ out = <<1>>
       [] op = "iter" -> o[3] = <<0>> \/ (o[3] = KeysOf(v) /\ (o[3] = Err \/ WalkOK(Tail(o[3]), out)))
       [] op = "has" -> out = BoolOut(v[1] = "m" /\ FirstAt(v, o[3]) > 0)
       [] op = "idx" -> out = IF v[1] = "a" /\ o[3] < Len(v[2]) THEN <<1>> ELSE Err
       [] op = "get" -> out = IF v[1] = "m" /\ FirstAt(v, o[3]) > 0 THEN <<1>> ELSE Err
       [] op = "dump" -> out = <<1>>
       [] OTHER -> FALSE
Opens(o) == o[1] \in {"idx", "get"} /\ o[Len(o)] = <<1>>
Target(v, o) == IF o[1] = "idx" THEN v[2][o[3] + 1] ELSE v[2][FirstAt(v, o[3])][2]

AsWord(outs) == {IF x = Err THEN Err ELSE Tail(x) : x \in outs}
(* What is shown of a whole value; a repeated name shows its first value. *)
RECURSIVE Shows(_, _)
Shows(v, node) ==
  LET ks == Range(node[1])
      o == node[2]
  IN IF BlobShape(v) THEN (IF BlobReadable(v) THEN ks = {"x", "a"} /\ o = <<"x", Decode(BlobText(v))>> ELSE o = <<"E", "D">>)
     ELSE IF o[1] = "E" THEN FALSE
     ELSE CASE IsIntKind(v) -> /\ o[1] = "I" /\ IntKindsOK("M", v, ks)
                               /\ o[2] \in AsWord(AsSigned(v, 8)) /\ o[3] \in AsWord(AsUnsigned(v, 8))
            [] v[1] = "n" -> o[1] = "n" /\ ks = {"n"}
            [] v[1] = "a" -> o[1] = "a" /\ ks = {"a"} /\ Len(o[2]) = Len(v[2]) /\ \A i \in 1..Len(v[2]) : Shows(v[2][i], o[2][i])
            [] v[1] = "m" -> o[1] = "m" /\ ks = {"m"} /\ Len(o[2]) = Len(v[2])
                             /\ \A i \in 1..Len(v[2]) : o[2][i][1] = v[2][i][1] /\ Shows(v[2][FirstAt(v, v[2][i][1])][2], o[2][i][2])
            [] OTHER -> ks = {v[1]} /\ o = v

RECURSIVE Fits(_, _)
Fits(p, v) ==
  CASE p = "J" -> Holds(v)
    [] v[1] = "a" -> \A i \in 1..Len(v[2]) : Fits(p, v[2][i])
    [] v[1] = "m" -> \A i \in 1..Len(v[2]) :
                       Representable(p, Len(v[2][i][1]), \E j \in 1..Len(v[2][i][1]) : v[2][i][1][j] = 0) /\ Fits(p, v[2][i][2])
    [] OTHER -> TRUE
(* A blob read from JSON is an array as well. *)
RECURSIVE Blobs(_)
Blobs(node) ==
  LET o == node[2] IN
  CASE o[1] = "x" -> <<<<"x">>, o>>
    [] o[1] = "a" -> <<node[1], <<"a", [i \in 1..Len(o[2]) |-> Blobs(o[2][i])]>>>>
    [] o[1] = "m" -> <<node[1], <<"m", [i \in 1..Len(o[2]) |-> <<o[2][i][1], Blobs(o[2][i][2])>>]>>>>
    [] OTHER -> node
StepsOK(v, steps) ==
  /\ steps # <<>>
  /\ \A i \in 1..Len(steps) :
       LET t == steps[i] IN
       IF Fits(t[1], v) THEN t[2] = "ok" /\ SameLogical(v, IF t[1] = "J" THEN Blobs(t[3]) ELSE t[3])
       ELSE t[2] \in (IF t[1] = "J" THEN {"S", "X"} ELSE {"S"})
RECURSIVE Distinct(_)
Distinct(v) == CASE v[1] = "a" -> \A i \in 1..Len(v[2]) : Distinct(v[2][i])
                 [] v[1] = "m" -> /\ \A i \in 1..Len(v[2]) : Distinct(v[2][i][2])
                                  /\ \A i, j \in 1..Len(v[2]) : v[2][i][1] = v[2][j][1] => i = j
                 [] OTHER -> TRUE
Written(v, r) == LET p == Parse(r.b, r.tab) IN p # Fail /\ Same(v, p)
Allowed(r) ==
  CASE r.dir = "w" -> IF Holds(r.v) THEN r.out = "ok" /\ Written(r.v, r) ELSE r.out # "ok"
    [] r.dir = "r" -> LET p == Parse(r.b, r.tab) IN
                      IF p = Fail THEN r.nodes = <<<<<<>>, <<"E", "D">>>>>>
                      ELSE /\ r.nodes # <<>> /\ \A i \in 1..Len(r.nodes) : Shows(p, r.nodes[i])
                           /\ (AllBlobsReadable(p) => \A i \in 1..2 : LET q == Parse(r.texts[i], r.tab) IN q # Fail /\ Same(p, q))
    [] r.dir = "t" -> LET p == Parse(r.b, r.tab) IN
                      IF p # Fail /\ AllBlobsReadable(p) /\ Distinct(p) THEN StepsOK(Logical(p), r.steps) ELSE TRUE
    [] r.dir = "u" -> StepsOK(r.v, r.steps)
    [] OTHER -> FALSE

NextLine == l' = l + Lanes /\ k' = 0 /\ hs' = <<>> /\ s' = Start
Line == /\ l <= Len(Trace) /\ k = 0
        /\ LET r == Trace[l] IN
           IF Crashed(r) THEN Reject(r, "crash") /\ NextLine
           ELSE IF r.dir = "h" THEN l' = l /\ k' = 1 /\ UNCHANGED <<hs, s>>
           ELSE IF r.dir = "b" THEN
             LET p == Parse(r.b, r.tab) IN
             IF r.open = "ok" /\ p # Fail THEN l' = l /\ k' = 1 /\ hs' = <<p>> /\ s' = s
             ELSE (IF r.open = "D" /\ p = Fail THEN TRUE ELSE Reject(r, "open")) /\ NextLine
           ELSE (IF Allowed(r) THEN TRUE ELSE Reject(r, r.dir)) /\ NextLine
Read == /\ l <= Len(Trace) /\ k >= 1 /\ Trace[l].dir = "b"
        /\ LET r == Trace[l] IN
           IF k > Len(r.ops) THEN NextLine
           ELSE LET o == r.ops[k]
                    v == hs[o[2]]
                IN IF OpAllowed(v, o)
                   THEN l' = l /\ k' = k + 1 /\ s' = s /\ hs' = IF Opens(o) THEN Append(hs, Target(v, o)) ELSE hs
                   ELSE Reject(r, <<"operation", k, o>>) /\ NextLine
(* A call that may not be made throws at once; finish wants every container ended. *)
Call == /\ l <= Len(Trace) /\ k >= 1 /\ Trace[l].dir = "h"
        /\ LET r == Trace[l] IN
           IF k > Len(r.calls) THEN NextLine
           ELSE LET c == r.calls[k]
                    out == c[Len(c)]
                IN IF c[1] = "F"
                   THEN /\ (IF IF CanFinish(s) /\ Holds(Result(s)) THEN out = "ok" /\ Written(Result(s), r) ELSE out # "ok"
                            THEN TRUE ELSE Reject(r, "finish"))
                        /\ NextLine
                   ELSE IF ~Legal(s, c) THEN (IF out # "ok" THEN TRUE ELSE Reject(r, <<"accepted", k>>)) /\ NextLine
                   ELSE IF out # "ok" THEN Reject(r, <<"refused", k>>) /\ NextLine
                   ELSE l' = l /\ k' = k + 1 /\ hs' = hs /\ s' = Effect(s, c)
Init == l \in 1..Lanes /\ k = 0 /\ hs = <<>> /\ s = Start
Next == Line \/ Read \/ Call \/ (l > Len(Trace) /\ UNCHANGED <<l, k, hs, s>>)
Spec == Init /\ [][Next]_<<l, k, hs, s>>
=============================================================================
