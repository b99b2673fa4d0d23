----------------------------- MODULE ZeraFormat -----------------------------
(* ZERA v1 as documented in protocols/ZERA.md, over byte sequences.

   A message context is [B |-> bytes, env |-> envelope size, arena |-> arena offset].
   A reader handle is the offset of a 16-byte ValueRef inside the envelope. *)
EXTENDS Values

HeaderSize == 20
Magic == <<90, 69, 78, 86>>                         \* 'Z' 'E' 'N' 'V'

At(B, o, n) == SubSeq(B, o + 1, o + n)              \* n bytes at 0-based offset o
At32(B, o) == U32(At(B, o, 4))

--------------------------------------------------------------------------
(* Header *)
HdrRoot(B)  == At32(B, 8)
HdrEnv(B)   == At32(B, 12)
HdrArena(B) == At32(B, 16)
HeaderPrefixOK(B) == /\ Len(B) >= HeaderSize
                     /\ At(B, 0, 4) = Magic
                     /\ At(B, 4, 2) = <<1, 0>>
                     /\ At(B, 6, 2) = <<1, 0>>
RegionsOK(B) == /\ HdrEnv(B) <= Len(B)
                /\ HdrArena(B) <= Len(B)
                /\ HdrArena(B) % 16 = 0
                /\ HdrArena(B) >= HeaderSize + HdrEnv(B)
RootOK(B) == HdrRoot(B) + 16 <= HdrEnv(B)
HeaderOK(B) == HeaderPrefixOK(B) /\ RegionsOK(B) /\ RootOK(B)

Ctx(B) == [B |-> B, env |-> HdrEnv(B), arena |-> HdrArena(B)]
ArenaLen(c) == Len(c.B) - c.arena

--------------------------------------------------------------------------
(* ValueRef fields *)
InEnv(c, o, n) == o + n <= c.env                    \* o, n < 2^30
EnvAt(c, o, n) == At(c.B, HeaderSize + o, n)
Env32(c, o) == At32(c.B, HeaderSize + o)
EnvByte(c, o) == c.B[HeaderSize + o + 1]
Tag(c, h)   == EnvByte(c, h)
Flags(c, h) == EnvByte(c, h + 1)
Aux(c, h)   == U16(EnvAt(c, h + 2, 2))
FA(c, h) == Env32(c, h + 4)
FB(c, h) == Env32(c, h + 8)
FC(c, h) == Env32(c, h + 12)
Word(c, h) == EnvAt(c, h + 4, 8)

KindOfTag(c, h) ==
  LET t == Tag(c, h) IN
  CASE t = 0 -> "n" [] t = 1 -> "b" [] t = 2 -> "i" [] t = 3 -> "d" [] t = 4 -> "s"
    [] t = 5 -> "a" [] t = 6 -> "m" [] t = 8 -> "u"
    [] t = 7 -> IF Aux(c, h) = 2 THEN "x" ELSE "?"
    [] OTHER -> "?"
FlagsOK(c, h) == Flags(c, h) \in (IF Tag(c, h) = 4 THEN {0, 1} ELSE {0})

ArenaOK(c, o, n) == o + n <= ArenaLen(c)
StrOK(c, h) == IF Flags(c, h) = 1 THEN Aux(c, h) <= 12 ELSE ArenaOK(c, FA(c, h), FB(c, h))
StrBytes(c, h) == IF Flags(c, h) = 1 THEN EnvAt(c, h + 4, Aux(c, h)) ELSE At(c.B, c.arena + FA(c, h), FB(c, h))
BlobOK(c, h) == LET s == FC(c, h) IN
  /\ InEnv(c, s, 12) /\ Env32(c, s) = 1
  /\ EnvAt(c, s + 4, 8) = ZeroExtend(EnvAt(c, h + 8, 4))
  /\ ArenaOK(c, FA(c, h), FB(c, h))
BlobBytes(c, h) == At(c.B, c.arena + FA(c, h), FB(c, h))

(* Arrays *)
ArrHead(c, h) == InEnv(c, FA(c, h), 4)
Count(c, h) == Env32(c, FA(c, h))
CountBytes16(n) == IF n >= 16777216 THEN Big ELSE 16 * n
ArrOK(c, h) == ArrHead(c, h) /\ InEnv(c, FA(c, h) + 4, CountBytes16(Count(c, h)))
Elem(c, h, i) == FA(c, h) + 4 + 16 * i              \* i is 0-based

(* Objects: entries are scanned in order. Entries(c, h) is the sequence of
   <<entry offset, key length>> of the leading entries that lie inside the
   envelope completely; the object is well formed iff there are Count of them. *)
RECURSIVE ScanEntries(_, _, _)
ScanEntries(c, o, n) ==
  IF n = 0 \/ ~InEnv(c, o, 20) THEN <<>>
  ELSE LET kl == U16(EnvAt(c, o, 2)) IN
       IF ~InEnv(c, o, 20 + kl) THEN <<>>
       ELSE <<<<o, kl>>>> \o ScanEntries(c, o + 20 + kl, n - 1)
Entries(c, h) == ScanEntries(c, FA(c, h) + 4, Count(c, h))
EntryKey(c, e) == EnvAt(c, e[1] + 4, e[2])
EntryValue(c, e) == e[1] + 4 + e[2]
ReservedOK(c, e) == EnvAt(c, e[1] + 2, 2) = <<0, 0>>
ObjHead(c, h) == InEnv(c, FA(c, h), 4)
ObjComplete(c, h) == ObjHead(c, h) /\ Len(Entries(c, h)) = Count(c, h)
ObjOK(c, h) == ObjComplete(c, h) /\ \A i \in 1..Len(Entries(c, h)) : ReservedOK(c, Entries(c, h)[i])

WellFormedRef(c, h) ==
  /\ FlagsOK(c, h)
  /\ LET k == KindOfTag(c, h) IN
     CASE k = "b" -> Aux(c, h) \in {0, 1}
       [] k = "s" -> StrOK(c, h)
       [] k = "x" -> BlobOK(c, h)
       [] k = "a" -> ArrOK(c, h)
       [] k = "m" -> ObjOK(c, h)
       [] OTHER -> TRUE

--------------------------------------------------------------------------
(* Reader operations: the set of outcomes the format allows.
   Outcomes: Err, or <<1, ...>>; a handle outcome is <<1, offset>>. *)
Ok(x) == <<1>> \o x
OneOf(c, h, right) == IF WellFormedRef(c, h) THEN {right} ELSE {right, Err}

BoolOut(b) == IF b THEN <<1, 1>> ELSE <<1, 0>>

IsKind(c, h, k) == IF ~InEnv(c, h, 16) THEN {Err}
                   ELSE IF WellFormedRef(c, h) THEN {BoolOut(KindOfTag(c, h) = k)}
                   ELSE {BoolOut(KindOfTag(c, h) = k), <<1, 0>>, Err}

AsBool(c, h) == IF InEnv(c, h, 16) /\ KindOfTag(c, h) = "b" /\ WellFormedRef(c, h)
                THEN {BoolOut(Aux(c, h) = 1)} ELSE {Err}
IntNum(c, h) == IF KindOfTag(c, h) = "i" THEN SignedNum(Word(c, h)) ELSE UnsignedNum(Word(c, h))
IsIntRef(c, h) == InEnv(c, h, 16) /\ KindOfTag(c, h) \in {"i", "u"} /\ FlagsOK(c, h)
AsSigned(c, h, w) == IF IsIntRef(c, h) /\ FitsSigned(IntNum(c, h), w) THEN {Ok(Word(c, h))} ELSE {Err}
AsUnsigned(c, h, w) == IF IsIntRef(c, h) /\ FitsUnsigned(IntNum(c, h), w) THEN {Ok(Word(c, h))} ELSE {Err}
IsFloatRef(c, h) == InEnv(c, h, 16) /\ KindOfTag(c, h) = "d" /\ FlagsOK(c, h)
AsStr(c, h) == IF InEnv(c, h, 16) /\ KindOfTag(c, h) = "s" /\ WellFormedRef(c, h)
               THEN {Ok(StrBytes(c, h))} ELSE {Err}
AsBlob(c, h) == IF InEnv(c, h, 16) /\ KindOfTag(c, h) = "x" /\ WellFormedRef(c, h)
                THEN {Ok(BlobBytes(c, h))} ELSE {Err}
ArrSize(c, h) == IF InEnv(c, h, 16) /\ KindOfTag(c, h) = "a" /\ WellFormedRef(c, h)
                 THEN {<<1, Count(c, h)>>} ELSE {Err}
Index(c, h, i) ==
  IF InEnv(c, h, 16) /\ KindOfTag(c, h) = "a" /\ FlagsOK(c, h) /\ ArrHead(c, h)
  THEN IF i < Count(c, h) /\ i < 16777216 /\ InEnv(c, Elem(c, h, i), 16)
       THEN OneOf(c, h, <<1, Elem(c, h, i)>>) ELSE {Err}
  ELSE {Err}
Keys(c, h) ==
  IF InEnv(c, h, 16) /\ KindOfTag(c, h) = "m" /\ FlagsOK(c, h) /\ ObjComplete(c, h)
  THEN OneOf(c, h, Ok([i \in 1..Count(c, h) |-> EntryKey(c, Entries(c, h)[i])])) ELSE {Err}
FirstMatch(c, es, key) ==                           \* index of the first entry with that key, or 0
  IF \E i \in 1..Len(es) : EntryKey(c, es[i]) = key
  THEN CHOOSE i \in 1..Len(es) : EntryKey(c, es[i]) = key /\ \A j \in 1..(i - 1) : EntryKey(c, es[j]) # key
  ELSE 0
Lookup(c, h, key) ==
  IF InEnv(c, h, 16) /\ KindOfTag(c, h) = "m" /\ FlagsOK(c, h) /\ ObjHead(c, h)
  THEN LET es == Entries(c, h)
           i == FirstMatch(c, es, key)
       IN IF i > 0 THEN OneOf(c, h, <<1, EntryValue(c, es[i])>>) ELSE {Err}
  ELSE {Err}
(* The entry after the last complete one may still have its key inside. *)
PartialKeyMatches(c, h, key) ==
  LET es == Entries(c, h)
      o == IF es = <<>> THEN FA(c, h) + 4 ELSE LET e == es[Len(es)] IN e[1] + 20 + e[2]
  IN /\ Len(es) < Count(c, h)
     /\ InEnv(c, o, 4) /\ U16(EnvAt(c, o, 2)) = Len(key) /\ InEnv(c, o, 4 + Len(key))
     /\ EnvAt(c, o + 4, Len(key)) = key
Contains(c, h, key) ==
  IF ~InEnv(c, h, 16) THEN {Err}
  ELSE IF KindOfTag(c, h) # "m" THEN (IF WellFormedRef(c, h) THEN {<<1, 0>>} ELSE {<<1, 0>>, Err})
  ELSE IF ~FlagsOK(c, h) \/ ~ObjHead(c, h) THEN {Err}
  ELSE LET es == Entries(c, h) IN
       IF FirstMatch(c, es, key) > 0 THEN OneOf(c, h, <<1, 1>>)
       ELSE IF ObjComplete(c, h) THEN OneOf(c, h, <<1, 0>>)
       ELSE IF PartialKeyMatches(c, h, key) THEN {<<1, 1>>, Err} ELSE {Err}

--------------------------------------------------------------------------
(* Independent decoder of a whole message (for what the writer produced), and the
   stricter canonical rules the writer promises. *)
RECURSIVE Decode(_, _)
Decode(c, h) ==                                     \* for well-formed messages
  LET k == KindOfTag(c, h) IN
  CASE k = "n" -> <<"n">>
    [] k = "b" -> <<"b", Aux(c, h) = 1>>
    [] k \in {"i", "u", "d"} -> <<k, Word(c, h)>>
    [] k = "s" -> <<"s", StrBytes(c, h)>>
    [] k = "x" -> <<"x", BlobBytes(c, h)>>
    [] k = "a" -> <<"a", [i \in 1..Count(c, h) |-> Decode(c, Elem(c, h, i - 1))]>>
    [] k = "m" -> LET es == Entries(c, h) IN
                  <<"m", [i \in 1..Len(es) |-> <<EntryKey(c, es[i]), Decode(c, EntryValue(c, es[i]))>>]>>

RECURSIVE ValidTree(_, _)
ValidTree(c, h) ==
  /\ InEnv(c, h, 16)
  /\ KindOfTag(c, h) # "?"
  /\ WellFormedRef(c, h)
  /\ LET k == KindOfTag(c, h) IN
     CASE k = "a" -> \A i \in 1..Count(c, h) : ValidTree(c, Elem(c, h, i - 1))
       [] k = "m" -> LET es == Entries(c, h) IN \A i \in 1..Len(es) : ValidTree(c, EntryValue(c, es[i]))
       [] OTHER -> TRUE

AllZero(s) == \A i \in 1..Len(s) : s[i] = 0
(* Unused fields of a ValueRef are zero, inline strings are at most `limit` long,
   blobs are 16-byte aligned. *)
CanonRef(c, h, limit) ==
  LET k == KindOfTag(c, h) IN
  CASE k = "n" -> AllZero(EnvAt(c, h + 1, 15))
    [] k = "b" -> Flags(c, h) = 0 /\ AllZero(EnvAt(c, h + 4, 12))
    [] k \in {"i", "u", "d"} -> AllZero(EnvAt(c, h + 1, 3)) /\ AllZero(EnvAt(c, h + 12, 4))
    [] k = "s" -> IF Flags(c, h) = 1
                  THEN Aux(c, h) <= limit /\ AllZero(EnvAt(c, h + 4 + Aux(c, h), 12 - Aux(c, h)))
                  ELSE AllZero(EnvAt(c, h + 1, 3)) /\ AllZero(EnvAt(c, h + 12, 4))
    [] k = "x" -> Flags(c, h) = 0 /\ FA(c, h) % 16 = 0
    [] k \in {"a", "m"} -> AllZero(EnvAt(c, h + 1, 3)) /\ AllZero(EnvAt(c, h + 8, 8))
RECURSIVE CanonTree(_, _, _)
CanonTree(c, h, limit) ==
  /\ CanonRef(c, h, limit)
  /\ LET k == KindOfTag(c, h) IN
     CASE k = "a" -> \A i \in 1..Count(c, h) : CanonTree(c, Elem(c, h, i - 1), limit)
       [] k = "m" -> LET es == Entries(c, h) IN \A i \in 1..Len(es) : CanonTree(c, EntryValue(c, es[i]), limit)
       [] OTHER -> TRUE

(* Arena bytes referenced by no payload are padding. Spans are <<start, length>>. *)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>>
               ELSE IF Len(ss) = 1 THEN ss[1]
               ELSE LET m == Len(ss) \div 2 IN Flatten(SubSeq(ss, 1, m)) \o Flatten(SubSeq(ss, m + 1, Len(ss)))
RECURSIVE ArenaSpans(_, _)
ArenaSpans(c, h) ==
  LET k == KindOfTag(c, h) IN
  CASE k = "s" /\ Flags(c, h) = 0 -> <<<<FA(c, h), FB(c, h)>>>>
    [] k = "x" -> <<<<FA(c, h), FB(c, h)>>>>
    [] k = "a" -> Flatten([i \in 1..Count(c, h) |-> ArenaSpans(c, Elem(c, h, i - 1))])
    [] k = "m" -> LET es == Entries(c, h) IN Flatten([i \in 1..Len(es) |-> ArenaSpans(c, EntryValue(c, es[i]))])
    [] OTHER -> <<>>
PaddingZero(c, h) ==
  /\ AllZero(At(c.B, HeaderSize + c.env, c.arena - HeaderSize - c.env))
  /\ LET spans == ArenaSpans(c, h)
         covered == UNION {spans[i][1]..(spans[i][1] + spans[i][2] - 1) : i \in 1..Len(spans)}
     IN \A o \in 0..(ArenaLen(c) - 1) : o \in covered \/ c.B[c.arena + o + 1] = 0

RECURSIVE SameValue(_, _)
SameValue(v, w) ==
  /\ v[1] = w[1]
  /\ CASE v[1] = "n" -> TRUE
       [] v[1] = "d" -> SameF64(v[2], w[2])
       [] v[1] = "a" -> Len(v[2]) = Len(w[2]) /\ \A i \in 1..Len(v[2]) : SameValue(v[2][i], w[2][i])
       [] v[1] = "m" -> /\ Len(v[2]) = Len(w[2])
                        /\ \A i \in 1..Len(v[2]) :
                             IF w[2][i][1] = v[2][i][1] THEN SameValue(v[2][i][2], w[2][i][2])
                             ELSE \E j \in 1..Len(w[2]) : w[2][j][1] = v[2][i][1] /\ SameValue(v[2][i][2], w[2][j][2])
       [] OTHER -> v[2] = w[2]

(* Everything the writer promises about the message for value v. *)
CanonicalMessage(B, v, limit) ==
  /\ HeaderOK(B)
  /\ LET c == Ctx(B)
         r == HdrRoot(B)
     IN /\ ValidTree(c, r)
        /\ SameValue(v, Decode(c, r))
        /\ CanonTree(c, r, limit)
        /\ PaddingZero(c, r)

--------------------------------------------------------------------------
(* A reference encoder (any conforming layout will do; this one lays children out
   before their parent). Enc returns <<envelope, arena, ValueRef bytes>>. *)
Pad16(n) == (16 - (n % 16)) % 16
Ref(tag, flags, aux, payload) == <<tag, flags>> \o NatLE(aux, 2) \o payload
                                 \o Rep(0, 12 - Len(payload))
RECURSIVE Enc(_, _, _, _)
RECURSIVE EncSeq(_, _, _, _, _)
Enc(v, env, arena, limit) ==
  CASE v[1] = "n" -> <<env, arena, Ref(0, 0, 0, <<>>)>>
    [] v[1] = "b" -> <<env, arena, Ref(1, 0, IF v[2] THEN 1 ELSE 0, <<>>)>>
    [] v[1] = "i" -> <<env, arena, Ref(2, 0, 0, v[2])>>
    [] v[1] = "d" -> <<env, arena, Ref(3, 0, 0, v[2])>>
    [] v[1] = "u" -> <<env, arena, Ref(8, 0, 0, v[2])>>
    [] v[1] = "s" -> IF Len(v[2]) <= limit THEN <<env, arena, Ref(4, 1, Len(v[2]), v[2])>>
                     ELSE <<env, arena \o v[2], Ref(4, 0, 0, NatLE(Len(arena), 4) \o NatLE(Len(v[2]), 4))>>
    [] v[1] = "x" -> LET a == arena \o Rep(0, Pad16(Len(arena))) IN
                     <<env \o NatLE(1, 4) \o NatLE(Len(v[2]), 8), a \o v[2],
                       Ref(7, 0, 2, NatLE(Len(a), 4) \o NatLE(Len(v[2]), 4) \o NatLE(Len(env), 4))>>
    [] v[1] = "a" -> LET r == EncSeq([i \in 1..Len(v[2]) |-> <<<<>>, v[2][i]>>], FALSE, env, arena, limit) IN
                     <<r[1] \o NatLE(Len(v[2]), 4) \o r[3], r[2], Ref(5, 0, 0, NatLE(Len(r[1]), 4))>>
    [] v[1] = "m" -> LET r == EncSeq(v[2], TRUE, env, arena, limit) IN
                     <<r[1] \o NatLE(Len(v[2]), 4) \o r[3], r[2], Ref(6, 0, 0, NatLE(Len(r[1]), 4))>>
EncSeq(kvs, keyed, env, arena, limit) ==
  IF kvs = <<>> THEN <<env, arena, <<>>>>
  ELSE LET h == Enc(kvs[1][2], env, arena, limit)
           t == EncSeq(Tail(kvs), keyed, h[1], h[2], limit)
           pre == IF keyed THEN NatLE(Len(kvs[1][1]), 2) \o <<0, 0>> \o kvs[1][1] ELSE <<>>
       IN <<t[1], t[2], pre \o h[3] \o t[3]>>
Encode(v, limit) ==
  LET r == Enc(v, <<>>, <<>>, limit)
      env == r[1] \o r[3]
      arenaOfs == HeaderSize + Len(env) + Pad16(HeaderSize + Len(env))
  IN Magic \o <<1, 0, 1, 0>> \o NatLE(Len(r[1]), 4) \o NatLE(Len(env), 4) \o NatLE(arenaOfs, 4)
     \o env \o Rep(0, arenaOfs - HeaderSize - Len(env)) \o r[2]
=============================================================================
