---------------------------- MODULE ValueReader ----------------------------
(* What a reader of a written value must answer, whatever the protocol. A handle is
   the value it stands for; the answer to a read depends on that value (and the
   protocol) only. <<"R", n>> is the array of the unsigned numbers 0..n-1 and
   <<"Q", n>> the map from "k0".."k(n-1)" to the same numbers. *)
EXTENDS Values, KeyCursor

Ok(x) == <<1>> \o x
BoolOut(b) == IF b THEN <<1, 1>> ELSE <<1, 0>>
KindSeq == <<"n", "b", "i", "u", "d", "s", "x", "a", "m">>
Kind(h) == CASE h[1] = "R" -> "a" [] h[1] = "Q" -> "m" [] OTHER -> h[1]
KindsAllowed(p, h, outs) ==
  /\ \A i \in 1..9 : outs[i] \in {<<1, 0>>, <<1, 1>>}
  /\ LET ks == {KindSeq[i] : i \in {j \in 1..9 : outs[j] = <<1, 1>>}} IN
     IF IsIntKind(h) THEN IntKindsOK(p, h, ks) ELSE ks = {Kind(h)}

(* Integer accessors. Flex may refuse the accessor of the other signedness. *)
AsSigned(p, h, w) == IF IsIntKind(h) /\ FitsSigned(Num(h), w)
                     THEN (IF p = "F" /\ h[1] = "u" THEN {Ok(h[2]), Err} ELSE {Ok(h[2])}) ELSE {Err}
AsUnsigned(p, h, w) == IF IsIntKind(h) /\ FitsUnsigned(Num(h), w)
                       THEN (IF p = "F" /\ h[1] = "i" THEN {Ok(h[2]), Err} ELSE {Ok(h[2])}) ELSE {Err}
FloatAllowed(h, w, out) ==
  IF h[1] = "d"
  THEN Len(out) = w + 1 /\ out[1] = 1 /\
       (IF w = 8 THEN SameF64(h[2], Tail(out)) ELSE SameF32(F64toF32(h[2]), Tail(out)))
  ELSE out = Err
AsBool(h) == IF h[1] = "b" THEN {BoolOut(h[2])} ELSE {Err}
AsStr(h) == IF h[1] = "s" THEN {Ok(h[2])} ELSE {Err}
AsBlob(h) == IF h[1] = "x" THEN {Ok(h[2])} ELSE {Err}

Count(h) == IF h[1] \in {"R", "Q"} THEN h[2] ELSE Len(h[2])
ArrSize(h) == IF Kind(h) = "a" THEN {<<1, Count(h)>>} ELSE {Err}
Index(h, i) == IF Kind(h) = "a" /\ i < Count(h)
               THEN {<<1, IF h[1] = "R" THEN <<"u", NatLE(i, 8)>> ELSE h[2][i + 1]>>} ELSE {Err}

(* Keys of <<"Q", n>>: 107 followed by decimal digits without leading zeros. *)
IsDigits(s) == Len(s) \in 1..6 /\ (\A i \in 1..Len(s) : s[i] \in 48..57) /\ (Len(s) > 1 => s[1] # 48)
RECURSIVE Dec(_)
Dec(s) == IF s = <<>> THEN 0 ELSE Dec(SubSeq(s, 1, Len(s) - 1)) * 10 + s[Len(s)] - 48
QKey(n, key) == Len(key) >= 2 /\ key[1] = 107 /\ IsDigits(Tail(key)) /\ Dec(Tail(key)) < n
HasKey(h, key) == IF h[1] = "Q" THEN QKey(h[2], key) ELSE \E i \in 1..Len(h[2]) : h[2][i][1] = key
ValueAt(h, key) == IF h[1] = "Q" THEN <<"u", NatLE(Dec(Tail(key)), 8)>>
                   ELSE h[2][CHOOSE i \in 1..Len(h[2]) : h[2][i][1] = key][2]
(* Each key once, in any order. *)
KeysAllowed(h, out) ==
  IF Kind(h) # "m" THEN out = Err
  ELSE /\ out[1] = 1
       /\ Len(out) = Count(h) + 1
       /\ LET got == {out[i] : i \in 2..Len(out)} IN
          IF h[1] = "Q" THEN Cardinality(got) = h[2] /\ \A x \in got : QKey(h[2], x)
          ELSE got = {h[2][i][1] : i \in 1..Len(h[2])}
Lookup(h, key) == IF Kind(h) = "m" /\ HasKey(h, key) THEN {<<1, ValueAt(h, key)>>} ELSE {Err}
Contains(h, key) == {BoolOut(Kind(h) = "m" /\ HasKey(h, key))}

OpAllowed(p, h, o) ==
  LET op == o[1]
      out == o[Len(o)]
  IN CASE op = "kind" -> KindsAllowed(p, h, out)
       [] op = "i8"  -> out \in AsSigned(p, h, 1)
       [] op = "i16" -> out \in AsSigned(p, h, 2)
       [] op = "i32" -> out \in AsSigned(p, h, 4)
       [] op = "i64" -> out \in AsSigned(p, h, 8)
       [] op = "u8"  -> out \in AsUnsigned(p, h, 1)
       [] op = "u16" -> out \in AsUnsigned(p, h, 2)
       [] op = "u32" -> out \in AsUnsigned(p, h, 4)
       [] op = "u64" -> out \in AsUnsigned(p, h, 8)
       [] op = "f32" -> FloatAllowed(h, 4, out)
       [] op = "f64" -> FloatAllowed(h, 8, out)
       [] op = "bool" -> out \in AsBool(h)
       [] op = "str" -> out \in AsStr(h)
       [] op = "view" -> out \in AsStr(h)
       [] op = "blob" -> out \in AsBlob(h)
       [] op = "size" -> out \in ArrSize(h)
       [] op = "keys" -> KeysAllowed(h, out)
       [] op = "part" -> Kind(h) # "m" /\ out = <<1>>      \* what a failed listing showed first: nothing
       [] op = "iter" -> o[3] = <<0>> \/ (KeysAllowed(h, o[3]) /\ (o[3] = Err \/ WalkOK(Tail(o[3]), out)))
       [] op = "has" -> out \in Contains(h, o[3])
       [] op = "idx" -> IF Index(h, o[3]) = {Err} THEN out = Err ELSE out = <<1>>
       [] op = "get" -> IF Lookup(h, o[3]) = {Err} THEN out = Err ELSE out = <<1>>
       [] op = "dump" -> out = <<1>>
       [] OTHER -> FALSE
Target(h, o) == (CHOOSE x \in (IF o[1] = "idx" THEN Index(h, o[3]) ELSE Lookup(h, o[3])) : TRUE)[2]
OpensHandle(o) == o[1] \in {"idx", "get"} /\ o[Len(o)] = <<1>>
=============================================================================
