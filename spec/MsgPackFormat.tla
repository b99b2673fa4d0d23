--------------------------- MODULE MsgPackFormat ---------------------------
(* MessagePack (the kinds zerialize supports) over byte sequences.

   A context is [B |-> bytes]; a reader handle is <<s, e>>: the element starts at
   0-based offset s and nothing at or beyond e may be looked at. The root handle is
   <<0, Len(B)>>; a sub-value's handle covers exactly its element. *)
EXTENDS Values

Bt(c, o) == c.B[o + 1]
Part(c, o, n) == SubSeq(c.B, o + 1, o + n)
BE16(c, o) == Bt(c, o) * 256 + Bt(c, o + 1)
BE32(c, o) == IF Bt(c, o) >= 32 THEN Big
              ELSE ((Bt(c, o) * 256 + Bt(c, o + 1)) * 256 + Bt(c, o + 2)) * 256 + Bt(c, o + 3)

(* What the marker says: kind, bytes of the length/number field after it. *)
KindOfMarker(m) ==
  CASE m <= 127 -> "i" [] m >= 224 -> "i"
    [] m >= 128 /\ m <= 143 -> "m"
    [] m >= 144 /\ m <= 159 -> "a"
    [] m >= 160 /\ m <= 191 -> "s"
    [] m = 192 -> "n"
    [] m \in {194, 195} -> "b"
    [] m \in {196, 197, 198} -> "x"
    [] m \in {202, 203} -> "d"
    [] m \in 204..207 -> "u"
    [] m \in 208..211 -> "i"
    [] m \in 217..219 -> "s"
    [] m \in {220, 221} -> "a"
    [] m \in {222, 223} -> "m"
    [] OTHER -> "?"                                  \* never used, or an extension
FieldSize(m) ==
  CASE m \in {196, 204, 208, 217} -> 1
    [] m \in {197, 205, 209, 218, 220, 222} -> 2
    [] m \in {198, 202, 206, 210, 219, 221, 223} -> 4
    [] m \in {203, 207, 211} -> 8
    [] OTHER -> 0
(* Length or count announced by a string, blob, array or map head at s. *)
Announced(c, s) ==
  LET m == Bt(c, s) IN
  CASE m >= 128 /\ m <= 159 -> m % 16
    [] m >= 160 /\ m <= 191 -> m % 32
    [] FieldSize(m) = 1 -> Bt(c, s + 1)
    [] FieldSize(m) = 2 -> BE16(c, s + 1)
    [] OTHER -> BE32(c, s + 1)

(* <<bytes of head and scalar body, number of child elements>>, or <<>> if it does
   not fit before e or the marker is not supported. *)
Lead(c, s, e) ==
  IF s >= e THEN <<>>
  ELSE LET m == Bt(c, s)
           k == KindOfMarker(m)
           f == FieldSize(m)
       IN IF k = "?" \/ s + 1 + f > e THEN <<>>
          ELSE IF k \in {"s", "x"}
               THEN LET n == Announced(c, s) IN IF s + 1 + f + n > e THEN <<>> ELSE <<1 + f + n, 0>>
          ELSE IF k = "a" THEN <<1 + f, Announced(c, s)>>
          ELSE IF k = "m" THEN <<1 + f, 2 * Announced(c, s)>>
          ELSE <<1 + f, 0>>

(* End offset of `pending` consecutive elements starting at s, or -1. *)
RECURSIVE Skip(_, _, _, _)
Skip(c, s, e, pending) ==
  IF pending = 0 THEN s
  ELSE IF pending > e - s THEN -1                    \* each needs a byte at least
  ELSE LET h == Lead(c, s, e) IN
       IF h = <<>> THEN -1 ELSE Skip(c, s + h[1], e, pending - 1 + h[2])
EndOf(c, s, e) == Skip(c, s, e, 1)

Kind(c, h) == IF h[1] >= h[2] THEN "?" ELSE KindOfMarker(Bt(c, h[1]))
HeadOK(c, h) == Lead(c, h[1], h[2]) # <<>>
HeadSize(c, h) == 1 + FieldSize(Bt(c, h[1]))
Complete(c, h) == EndOf(c, h[1], h[2]) # -1
Exact(c, h) == EndOf(c, h[1], h[2]) = h[2]           \* one element and nothing after it
Payload(c, h) == Part(c, h[1] + HeadSize(c, h), Announced(c, h[1]))

(* Big-endian field to a 64-bit word. *)
Field(c, h) == Reverse8(Part(c, h[1] + 1, FieldSize(Bt(c, h[1]))))
IntNumber(c, h) ==                                   \* <<negative?, word>>
  LET m == Bt(c, h[1]) IN
  CASE m <= 127 -> UnsignedNum(ZeroExtend(<<m>>))
    [] m >= 224 -> SignedNum(SignExtend(<<m>>))
    [] Kind(c, h) = "u" -> UnsignedNum(ZeroExtend(Field(c, h)))
    [] OTHER -> SignedNum(SignExtend(Field(c, h)))
FloatWord(c, h) == IF Bt(c, h[1]) = 203 THEN Field(c, h) ELSE F32toF64(Field(c, h))

--------------------------------------------------------------------------
(* Reader operations and the outcomes they may have. *)
Ok(x) == <<1>> \o x
BoolOut(b) == IF b THEN <<1, 1>> ELSE <<1, 0>>
Soft(c, h, right) == IF Exact(c, h) THEN {right} ELSE {right, Err}

IsInt(c, h) == Kind(c, h) \in {"i", "u"}
(* outs: the outcomes of the nine predicates n b i u d s x a m. *)
KindSeq == <<"n", "b", "i", "u", "d", "s", "x", "a", "m">>
KindsAllowed(c, h, outs) ==
  IF Exact(c, h) /\ IsInt(c, h)
  THEN /\ \A i \in {1, 2, 5, 6, 7, 8, 9} : outs[i] = <<1, 0>>
       /\ outs[3] \in {<<1, 0>>, <<1, 1>>} /\ outs[4] \in {<<1, 0>>, <<1, 1>>}
       /\ <<1, 1>> \in {outs[3], outs[4]}
       /\ (IntNumber(c, h)[1] => outs[4] = <<1, 0>>)
       /\ (~FitsSigned(IntNumber(c, h), 8) => outs[3] = <<1, 0>>)
  ELSE IF Exact(c, h) THEN \A i \in 1..9 : outs[i] = BoolOut(Kind(c, h) = KindSeq[i])
  ELSE \A i \in 1..9 : \/ outs[i] \in {<<1, 0>>, Err}
                       \/ outs[i] = <<1, 1>> /\ (Kind(c, h) = KindSeq[i] \/ (IsInt(c, h) /\ i \in {3, 4}))

AsBool(c, h) == IF Kind(c, h) = "b" THEN Soft(c, h, BoolOut(Bt(c, h[1]) = 195)) ELSE {Err}
AsSigned(c, h, w) == IF IsInt(c, h) /\ HeadOK(c, h) /\ FitsSigned(IntNumber(c, h), w)
                     THEN Soft(c, h, Ok(IntNumber(c, h)[2])) ELSE {Err}
AsUnsigned(c, h, w) == IF IsInt(c, h) /\ HeadOK(c, h) /\ FitsUnsigned(IntNumber(c, h), w)
                       THEN Soft(c, h, Ok(IntNumber(c, h)[2])) ELSE {Err}
FloatAllowed(c, h, w, out) ==
  \/ out = Err /\ ~(Kind(c, h) = "d" /\ Exact(c, h))
  \/ /\ Kind(c, h) = "d" /\ HeadOK(c, h)
     /\ Len(out) = w + 1 /\ out[1] = 1
     /\ IF w = 8 THEN SameF64(FloatWord(c, h), Tail(out)) ELSE SameF32(F64toF32(FloatWord(c, h)), Tail(out))
AsStr(c, h) == IF Kind(c, h) = "s" /\ HeadOK(c, h) THEN Soft(c, h, Ok(Payload(c, h))) ELSE {Err}
AsBlob(c, h) == IF Kind(c, h) = "x" /\ HeadOK(c, h) THEN Soft(c, h, Ok(Payload(c, h))) ELSE {Err}
ArrSize(c, h) == IF Kind(c, h) = "a" /\ HeadOK(c, h) THEN Soft(c, h, <<1, Announced(c, h[1])>>) ELSE {Err}
Index(c, h, i) ==
  IF Kind(c, h) = "a" /\ HeadOK(c, h) /\ i < Announced(c, h[1])
  THEN LET s == Skip(c, h[1] + HeadSize(c, h), h[2], i)
           e == IF s = -1 THEN -1 ELSE EndOf(c, s, h[2])
       IN IF e = -1 THEN {Err} ELSE Soft(c, h, <<1, <<s, e>>>>)
  ELSE {Err}

(* Leading entries of a map that are complete: <<key handle, value handle>>. *)
RECURSIVE Pairs(_, _, _, _)
Pairs(c, s, e, n) ==
  IF n = 0 THEN <<>>
  ELSE LET ke == EndOf(c, s, e)
           ve == IF ke = -1 THEN -1 ELSE EndOf(c, ke, e)
       IN IF ve = -1 THEN <<>> ELSE <<<<<<s, ke>>, <<ke, ve>>>>>> \o Pairs(c, ve, e, n - 1)
Entries(c, h) == Pairs(c, h[1] + HeadSize(c, h), h[2], Announced(c, h[1]))
AllStrings(c, es) == \A i \in 1..Len(es) : Kind(c, es[i][1]) = "s"
Keys(c, h) ==
  IF Kind(c, h) = "m" /\ HeadOK(c, h)
  THEN LET es == Entries(c, h) IN
       IF Len(es) = Announced(c, h[1]) /\ AllStrings(c, es)
       THEN Soft(c, h, Ok([i \in 1..Len(es) |-> Payload(c, es[i][1])])) ELSE {Err}
  ELSE {Err}
KeyIs(c, e, key) == Kind(c, e[1]) = "s" /\ Payload(c, e[1]) = key
FirstMatch(c, es, key) ==
  IF \E i \in 1..Len(es) : KeyIs(c, es[i], key)
  THEN CHOOSE i \in 1..Len(es) : KeyIs(c, es[i], key) /\ \A j \in 1..(i - 1) : ~KeyIs(c, es[j], key)
  ELSE 0
Lookup(c, h, key) ==
  IF Kind(c, h) = "m" /\ HeadOK(c, h)
  THEN LET es == Entries(c, h)
           i == FirstMatch(c, es, key)
       IN IF i = 0 THEN {Err}
          ELSE IF AllStrings(c, es) THEN Soft(c, h, <<1, es[i][2]>>) ELSE {<<1, es[i][2]>>, Err}
  ELSE {Err}
(* The first incomplete entry may still have a complete key. *)
PartialKeyIs(c, h, es, key) ==
  LET s == IF es = <<>> THEN h[1] + HeadSize(c, h) ELSE es[Len(es)][2][2]
      ke == EndOf(c, s, h[2])
  IN ke # -1 /\ KeyIs(c, <<<<s, ke>>>>, key)
Contains(c, h, key) ==
  IF Kind(c, h) # "m" THEN Soft(c, h, <<1, 0>>)
  ELSE IF ~HeadOK(c, h) THEN {<<1, 0>>, Err}
  ELSE LET es == Entries(c, h) IN
       IF FirstMatch(c, es, key) > 0 THEN (IF AllStrings(c, es) THEN Soft(c, h, <<1, 1>>) ELSE {<<1, 1>>, Err})
       ELSE IF Len(es) = Announced(c, h[1]) THEN (IF AllStrings(c, es) THEN Soft(c, h, <<1, 0>>) ELSE {<<1, 0>>, Err})
       ELSE IF PartialKeyIs(c, h, es, key) THEN {<<1, 1>>, Err} ELSE {Err}

--------------------------------------------------------------------------
(* Independent decoder of a complete element whose map keys are strings; integers
   come out by number, as "i" when negative and as "u" otherwise. *)
RECURSIVE Elems(_, _, _, _)
Elems(c, s, e, n) ==
  IF n = 0 THEN <<>> ELSE LET x == EndOf(c, s, e) IN <<<<s, x>>>> \o Elems(c, x, e, n - 1)
RECURSIVE Decode(_, _)
Decode(c, h) ==
  LET k == Kind(c, h) IN
  CASE k = "n" -> <<"n">>
    [] k = "b" -> <<"b", Bt(c, h[1]) = 195>>
    [] k \in {"i", "u"} -> LET n == IntNumber(c, h) IN <<IF n[1] THEN "i" ELSE "u", n[2]>>
    [] k = "d" -> <<"d", FloatWord(c, h)>>
    [] k \in {"s", "x"} -> <<k, Payload(c, h)>>
    [] k = "a" -> LET es == Elems(c, h[1] + HeadSize(c, h), h[2], Announced(c, h[1])) IN
                  <<"a", [i \in 1..Len(es) |-> Decode(c, es[i])]>>
    [] k = "m" -> LET es == Entries(c, h) IN
                  <<"m", [i \in 1..Len(es) |-> <<Payload(c, es[i][1]), Decode(c, es[i][2])>>]>>
RECURSIVE StringKeysOnly(_, _)
StringKeysOnly(c, h) ==
  LET k == Kind(c, h) IN
  CASE k = "a" -> LET es == Elems(c, h[1] + HeadSize(c, h), h[2], Announced(c, h[1])) IN
                  \A i \in 1..Len(es) : StringKeysOnly(c, es[i])
    [] k = "m" -> LET es == Entries(c, h) IN AllStrings(c, es) /\ \A i \in 1..Len(es) : StringKeysOnly(c, es[i][2])
    [] OTHER -> TRUE
RootOf(c) == <<0, Len(c.B)>>
OneMessage(c) == Exact(c, RootOf(c)) /\ StringKeysOnly(c, RootOf(c))

RECURSIVE SameNumbers(_, _)                          \* equality with integers by number
SameNumbers(v, w) ==
  IF IsIntKind(v) THEN IsIntKind(w) /\ Num(v) = Num(w)
  ELSE /\ v[1] = w[1]
       /\ CASE v[1] = "n" -> TRUE
            [] v[1] = "d" -> SameF64(v[2], w[2])
            [] v[1] = "a" -> Len(v[2]) = Len(w[2]) /\ \A i \in 1..Len(v[2]) : SameNumbers(v[2][i], w[2][i])
            [] v[1] = "m" -> /\ Len(v[2]) = Len(w[2])
                             /\ \A i \in 1..Len(v[2]) :
                                  IF w[2][i][1] = v[2][i][1] THEN SameNumbers(v[2][i][2], w[2][i][2])
                                  ELSE \E j \in 1..Len(w[2]) : w[2][j][1] = v[2][i][1] /\ SameNumbers(v[2][i][2], w[2][j][2])
            [] OTHER -> v[2] = w[2]
(* The message is one element and denotes v. *)
Denotes(c, v) == OneMessage(c) /\ SameNumbers(v, Decode(c, RootOf(c)))

--------------------------------------------------------------------------
(* A reference encoder: every admissible head size; `wide` picks how many steps
   beyond the smallest one. *)
BE(n, w) == Reverse8(NatLE(n, w))
LenHead(small, ms, n, wide) ==                       \* small = <<base, limit>> or <<>>; ms = markers by size
  LET opts == (IF small # <<>> /\ n < small[2] THEN <<<<small[1] + n>>>> ELSE <<>>)
              \o (IF ms[1] > 0 /\ n < 256 THEN <<<<ms[1]>> \o BE(n, 1)>> ELSE <<>>)
              \o (IF n < 65536 THEN <<<<ms[2]>> \o BE(n, 2)>> ELSE <<>>)
              \o <<<<ms[3]>> \o BE(n, 4)>>
  IN opts[IF wide + 1 > Len(opts) THEN Len(opts) ELSE wide + 1]
IntForms(v) ==
  LET n == Num(v)
      w == n[2]
  IN (IF ~n[1] /\ FitsSigned(n, 1) THEN <<<<w[1]>>>> ELSE <<>>)
     \o (IF n[1] /\ FitsSigned(n, 1) /\ w[1] >= 224 THEN <<<<w[1]>>>> ELSE <<>>)
     \o (IF FitsUnsigned(n, 1) THEN <<<<204, w[1]>>>> ELSE <<>>)
     \o (IF FitsSigned(n, 1) THEN <<<<208, w[1]>>>> ELSE <<>>)
     \o (IF FitsUnsigned(n, 2) THEN <<<<205, w[2], w[1]>>>> ELSE <<>>)
     \o (IF FitsSigned(n, 2) THEN <<<<209, w[2], w[1]>>>> ELSE <<>>)
     \o (IF FitsUnsigned(n, 4) THEN <<<<206, w[4], w[3], w[2], w[1]>>>> ELSE <<>>)
     \o (IF FitsSigned(n, 4) THEN <<<<210, w[4], w[3], w[2], w[1]>>>> ELSE <<>>)
     \o (IF FitsUnsigned(n, 8) THEN <<<<207>> \o Reverse8(w)>> ELSE <<>>)
     \o (IF FitsSigned(n, 8) THEN <<<<211>> \o Reverse8(w)>> ELSE <<>>)
RECURSIVE EncM(_, _)
RECURSIVE EncAll(_, _)
EncM(v, wide) ==
  CASE v[1] = "n" -> <<192>>
    [] v[1] = "b" -> <<IF v[2] THEN 195 ELSE 194>>
    [] IsIntKind(v) -> LET f == IntForms(v) IN f[IF wide + 1 > Len(f) THEN Len(f) ELSE wide + 1]
    [] v[1] = "d" -> <<203>> \o Reverse8(v[2])
    [] v[1] = "s" -> LenHead(<<160, 32>>, <<217, 218, 219>>, Len(v[2]), wide) \o v[2]
    [] v[1] = "x" -> LenHead(<<>>, <<196, 197, 198>>, Len(v[2]), wide) \o v[2]
    [] v[1] = "a" -> LenHead(<<144, 16>>, <<0, 220, 221>>, Len(v[2]), wide) \o EncAll(v[2], wide)
    [] v[1] = "m" -> LenHead(<<128, 16>>, <<0, 222, 223>>, Len(v[2]), wide)
                     \o EncAll([i \in 1..(2 * Len(v[2])) |-> IF i % 2 = 1 THEN <<"s", v[2][(i + 1) \div 2][1]>> ELSE v[2][i \div 2][2]], wide)
EncAll(vs, wide) == IF vs = <<>> THEN <<>> ELSE EncM(Head(vs), wide) \o EncAll(Tail(vs), wide)
=============================================================================
