----------------------------- MODULE CborFormat -----------------------------
(* CBOR (RFC 8949), the kinds zerialize supports, over byte sequences.

   A context is [B |-> bytes]; a reader handle is <<s, e, root?>>: the data item starts at
   0-based offset s and nothing at or beyond e may be looked at. A sub-value ends where its
   item ends; the root must be the whole input. *)
EXTENDS Values

Bt(c, o) == c.B[o + 1]
Part(c, o, n) == SubSeq(c.B, o + 1, o + n)
BE16(c, o) == Bt(c, o) * 256 + Bt(c, o + 1)
BE32(c, o) == IF Bt(c, o) >= 32 THEN Big
              ELSE ((Bt(c, o) * 256 + Bt(c, o + 1)) * 256 + Bt(c, o + 2)) * 256 + Bt(c, o + 3)

Major(b) == b \div 32
Addl(b) == b % 32
ArgSize(b) == CASE Addl(b) = 24 -> 1 [] Addl(b) = 25 -> 2 [] Addl(b) = 26 -> 4 [] Addl(b) = 27 -> 8 [] OTHER -> 0
Reserved(b) == Addl(b) \in 28..30 \/ (Addl(b) = 31 /\ Major(b) \notin 2..5)   \* 255 is the break, no item
Indef(b) == Addl(b) = 31 /\ Major(b) \in 2..5
(* The length, count or small number a head announces. *)
Arg(c, s) ==
  LET b == Bt(c, s) IN
  CASE Addl(b) < 24 -> Addl(b)
    [] Addl(b) = 24 -> Bt(c, s + 1)
    [] Addl(b) = 25 -> BE16(c, s + 1)
    [] Addl(b) = 26 -> BE32(c, s + 1)
    [] OTHER -> IF \E i \in 1..4 : Bt(c, s + i) # 0 THEN Big ELSE BE32(c, s + 5)
HeadEnd(c, s) == s + 1 + ArgSize(Bt(c, s))
HeadFits(c, s, e) == s < e /\ ~Reserved(Bt(c, s)) /\ HeadEnd(c, s) <= e

(* End of the data item at s, or -1 if it is not well formed or does not end before e. *)
RECURSIVE EndOf(_, _, _)
RECURSIVE SkipN(_, _, _, _)
RECURSIVE ToBreak(_, _, _, _)
RECURSIVE Chunks(_, _, _, _)
SkipN(c, s, e, n) == IF n = 0 THEN s
                     ELSE IF n > e - s THEN -1                 \* each needs a byte at least
                     ELSE LET x == EndOf(c, s, e) IN IF x = -1 THEN -1 ELSE SkipN(c, x, e, n - 1)
ToBreak(c, s, e, unit) == IF s >= e THEN -1
                          ELSE IF Bt(c, s) = 255 THEN s + 1
                          ELSE LET x == SkipN(c, s, e, unit) IN IF x = -1 THEN -1 ELSE ToBreak(c, x, e, unit)
(* Chunks of an indefinite string: definite strings of the same kind, up to the break. *)
Chunks(c, s, e, m) ==
  IF s >= e THEN -1
  ELSE IF Bt(c, s) = 255 THEN s + 1
  ELSE IF Major(Bt(c, s)) # m \/ Indef(Bt(c, s)) \/ ~HeadFits(c, s, e) \/ HeadEnd(c, s) + Arg(c, s) > e THEN -1
  ELSE Chunks(c, HeadEnd(c, s) + Arg(c, s), e, m)
EndOf(c, s, e) ==
  IF ~HeadFits(c, s, e) THEN -1
  ELSE LET b == Bt(c, s)
           m == Major(b)
           q == HeadEnd(c, s)
       IN CASE m \in {0, 1, 7} -> q
            [] m \in {2, 3} -> IF Indef(b) THEN Chunks(c, q, e, m) ELSE IF q + Arg(c, s) > e THEN -1 ELSE q + Arg(c, s)
            [] m = 4 -> IF Indef(b) THEN ToBreak(c, q, e, 1) ELSE SkipN(c, q, e, Arg(c, s))
            [] m = 5 -> IF Indef(b) THEN ToBreak(c, q, e, 2) ELSE SkipN(c, q, e, 2 * Arg(c, s))
            [] OTHER -> EndOf(c, q, e)                          \* a tag and the item it is about

KindOfHead(b) ==
  LET m == Major(b) IN
  CASE Reserved(b) -> "?"
    [] m = 0 -> "u" [] m = 1 -> "i" [] m = 2 -> "x" [] m = 3 -> "s" [] m = 4 -> "a" [] m = 5 -> "m"
    [] b \in {244, 245} -> "b"
    [] b = 246 -> "n"
    [] b \in {249, 250, 251} -> "d"
    [] OTHER -> "?"                                             \* tags, undefined, other simple values
Kind(c, h) == IF h[1] >= h[2] THEN "?" ELSE KindOfHead(Bt(c, h[1]))
HeadOK(c, h) == HeadFits(c, h[1], h[2])
Whole(c, h) == EndOf(c, h[1], h[2]) # -1
Exact(c, h) == IF h[3] THEN EndOf(c, h[1], h[2]) = h[2] ELSE Whole(c, h)
Body(c, h) == HeadEnd(c, h[1])

(* Bytes of a string or blob that is well formed. *)
RECURSIVE Joined(_, _)
Joined(c, s) == IF Bt(c, s) = 255 THEN <<>>
                ELSE Part(c, HeadEnd(c, s), Arg(c, s)) \o Joined(c, HeadEnd(c, s) + Arg(c, s))
Payload(c, h) == IF Indef(Bt(c, h[1])) THEN Joined(c, Body(c, h)) ELSE Part(c, Body(c, h), Arg(c, h[1]))

(* Integers: major type 1 stands for -1 - n. One that no 64-bit word holds is <<>>. *)
ArgWord(c, s) == LET b == Bt(c, s) IN
  IF Addl(b) < 24 THEN ZeroExtend(<<Addl(b)>>) ELSE ZeroExtend(Reverse8(Part(c, s + 1, ArgSize(b))))
IntNumber(c, h) ==
  LET w == ArgWord(c, h[1]) IN
  IF Kind(c, h) = "u" THEN UnsignedNum(w)
  ELSE IF w[8] >= 128 THEN <<>> ELSE SignedNum([i \in 1..8 |-> 255 - w[i]])

(* binary16 to binary64, exactly. *)
RECURSIVE Top(_)
Top(m) == IF m = 1 THEN 0 ELSE 1 + Top(m \div 2)
F64Of(sign, e, m10) == <<0, 0, 0, 0, 0, (m10 % 64) * 4, (e % 16) * 16 + m10 \div 64, sign * 128 + e \div 16>>
F16toF64(hi, lo) ==
  LET s == hi \div 128
      e == (hi % 128) \div 4
      m == (hi % 4) * 256 + lo
  IN IF e = 31 THEN F64Of(s, 2047, m)
     ELSE IF e > 0 THEN F64Of(s, e + 1008, m)
     ELSE IF m = 0 THEN F64Of(s, 0, 0)
     ELSE LET k == Top(m) IN F64Of(s, k + 999, m * Pow2(10 - k) - 1024)
FloatWord(c, h) ==
  LET b == Bt(c, h[1])
      q == h[1] + 1
  IN CASE b = 249 -> F16toF64(Bt(c, q), Bt(c, q + 1))
       [] b = 250 -> F32toF64(Reverse8(Part(c, q, 4)))
       [] OTHER -> Reverse8(Part(c, q, 8))

--------------------------------------------------------------------------
(* Reader operations and the outcomes they may have. *)
Ok(x) == <<1>> \o x
BoolOut(b) == IF b THEN <<1, 1>> ELSE <<1, 0>>
Soft(c, h, right) == IF Exact(c, h) THEN {right} ELSE {right, Err}
IsInt(c, h) == Kind(c, h) \in {"i", "u"}
KindSeq == <<"n", "b", "i", "u", "d", "s", "x", "a", "m">>
KindsAllowed(c, h, outs) ==
  IF Exact(c, h) /\ IsInt(c, h)
  THEN /\ \A i \in {1, 2, 5, 6, 7, 8, 9} : outs[i] = <<1, 0>>
       /\ outs[3] \in {<<1, 0>>, <<1, 1>>} /\ outs[4] \in {<<1, 0>>, <<1, 1>>}
       /\ LET n == IntNumber(c, h) IN
          IF n = <<>> THEN outs[4] = <<1, 0>>
          ELSE /\ <<1, 1>> \in {outs[3], outs[4]}
               /\ (n[1] => outs[4] = <<1, 0>>)
               /\ (~FitsSigned(n, 8) => outs[3] = <<1, 0>>)
  ELSE IF Exact(c, h) THEN \A i \in 1..9 : outs[i] = BoolOut(Kind(c, h) = KindSeq[i])
  ELSE \A i \in 1..9 : \/ outs[i] \in {<<1, 0>>, Err}
                       \/ outs[i] = <<1, 1>> /\ (Kind(c, h) = KindSeq[i] \/ (IsInt(c, h) /\ i \in {3, 4}))

AsBool(c, h) == IF Kind(c, h) = "b" THEN Soft(c, h, BoolOut(Bt(c, h[1]) = 245)) ELSE {Err}
AsSigned(c, h, w) == IF IsInt(c, h) /\ HeadOK(c, h) /\ IntNumber(c, h) # <<>> /\ FitsSigned(IntNumber(c, h), w)
                     THEN Soft(c, h, Ok(IntNumber(c, h)[2])) ELSE {Err}
AsUnsigned(c, h, w) == IF IsInt(c, h) /\ HeadOK(c, h) /\ IntNumber(c, h) # <<>> /\ FitsUnsigned(IntNumber(c, h), w)
                       THEN Soft(c, h, Ok(IntNumber(c, h)[2])) ELSE {Err}
FloatAllowed(c, h, w, out) ==
  \/ out = Err /\ ~(Kind(c, h) = "d" /\ Exact(c, h))
  \/ /\ Kind(c, h) = "d" /\ HeadOK(c, h)
     /\ Len(out) = w + 1 /\ out[1] = 1
     /\ IF w = 8 THEN SameF64(FloatWord(c, h), Tail(out)) ELSE SameF32(F64toF32(FloatWord(c, h)), Tail(out))
AsText(c, h, k) == IF Kind(c, h) = k /\ Whole(c, h) THEN Soft(c, h, Ok(Payload(c, h))) ELSE {Err}
AsStr(c, h) == AsText(c, h, "s")
(* A string in chunks has no single place a view could point to. *)
AsView(c, h, k) == AsText(c, h, k) \cup (IF Whole(c, h) /\ Indef(Bt(c, h[1])) THEN {Err} ELSE {})

(* Start offsets of the complete items in an array, at most `n` of them, and whether the
   container is known to go no further. *)
RECURSIVE Starts(_, _, _, _, _)
Starts(c, s, e, n, indef) ==
  IF (~indef /\ n = 0) \/ s >= e \/ (indef /\ Bt(c, s) = 255) THEN <<>>
  ELSE LET x == EndOf(c, s, e) IN
       IF x = -1 THEN <<>> ELSE <<<<s, x>>>> \o Starts(c, x, e, IF indef THEN n ELSE n - 1, indef)
Items(c, h) == Starts(c, Body(c, h), h[2], IF Indef(Bt(c, h[1])) THEN 0 ELSE Arg(c, h[1]), Indef(Bt(c, h[1])))
After(c, h, es) == IF es = <<>> THEN Body(c, h) ELSE es[Len(es)][2]
AtBreak(c, h, es) == After(c, h, es) < h[2] /\ Bt(c, After(c, h, es)) = 255
ArrSize(c, h) ==
  IF Kind(c, h) = "a" /\ HeadOK(c, h)
  THEN IF Indef(Bt(c, h[1]))
       THEN LET es == Items(c, h) IN IF AtBreak(c, h, es) THEN Soft(c, h, <<1, Len(es)>>) ELSE {Err}
       ELSE Soft(c, h, <<1, Arg(c, h[1])>>)
  ELSE {Err}
Index(c, h, i) ==
  IF Kind(c, h) = "a" /\ HeadOK(c, h) /\ (Indef(Bt(c, h[1])) \/ i < Arg(c, h[1]))
  THEN LET es == Items(c, h) IN
       IF i < Len(es) THEN Soft(c, h, <<1, <<es[i + 1][1], h[2], FALSE>>>>)
       ELSE IF i = Len(es) /\ ~(Indef(Bt(c, h[1])) /\ AtBreak(c, h, es))
            THEN {<<1, <<After(c, h, es), h[2], FALSE>>>>, Err}    \* a torn item may be found out later
       ELSE {Err}
  ELSE {Err}

(* Leading entries of a map that are complete: <<key handle, value handle>>. *)
RECURSIVE Pairs(_, _, _, _, _)
Pairs(c, s, e, n, indef) ==
  IF (~indef /\ n = 0) \/ s >= e \/ (indef /\ Bt(c, s) = 255) THEN <<>>
  ELSE LET ke == EndOf(c, s, e)
           ve == IF ke = -1 THEN -1 ELSE EndOf(c, ke, e)
       IN IF ve = -1 THEN <<>> ELSE <<<<<<s, e, FALSE>>, <<ke, e, FALSE>>, ve>>>> \o Pairs(c, ve, e, IF indef THEN n ELSE n - 1, indef)
Entries(c, h) == Pairs(c, Body(c, h), h[2], IF Indef(Bt(c, h[1])) THEN 0 ELSE Arg(c, h[1]), Indef(Bt(c, h[1])))
EntriesEnd(c, h, es) == IF es = <<>> THEN Body(c, h) ELSE es[Len(es)][3]
AllThere(c, h, es) == IF Indef(Bt(c, h[1])) THEN EntriesEnd(c, h, es) < h[2] /\ Bt(c, EntriesEnd(c, h, es)) = 255
                      ELSE Len(es) = Arg(c, h[1])
AllStrings(c, es) == \A i \in 1..Len(es) : Kind(c, es[i][1]) = "s"
Keys(c, h) ==
  IF Kind(c, h) = "m" /\ HeadOK(c, h)
  THEN LET es == Entries(c, h) IN
       IF AllThere(c, h, es) /\ AllStrings(c, es)
       THEN Soft(c, h, Ok([i \in 1..Len(es) |-> Payload(c, es[i][1])])) ELSE {Err}
  ELSE {Err}
KeyIs(c, k, key) == Kind(c, k) = "s" /\ Whole(c, k) /\ Payload(c, k) = key
FirstMatch(c, es, key) ==
  IF \E i \in 1..Len(es) : KeyIs(c, es[i][1], key)
  THEN CHOOSE i \in 1..Len(es) : KeyIs(c, es[i][1], key) /\ \A j \in 1..(i - 1) : ~KeyIs(c, es[j][1], key)
  ELSE 0
(* The first entry that is torn may still have a complete key; <<>> if it has none. *)
TornEntry(c, h, es) ==
  LET s == EntriesEnd(c, h, es)
      ke == IF AllThere(c, h, es) THEN -1 ELSE EndOf(c, s, h[2])
  IN IF ke = -1 THEN <<>> ELSE <<<<s, h[2], FALSE>>, <<ke, h[2], FALSE>>>>
Lookup(c, h, key) ==
  IF Kind(c, h) = "m" /\ HeadOK(c, h)
  THEN LET es == Entries(c, h)
           i == FirstMatch(c, es, key)
           t == TornEntry(c, h, es)
       IN IF i > 0 THEN (IF AllStrings(c, es) THEN Soft(c, h, <<1, es[i][2]>>) ELSE {<<1, es[i][2]>>, Err})
          ELSE IF t # <<>> THEN (IF KeyIs(c, t[1], key) THEN {<<1, t[2]>>, Err} ELSE {Err})
          ELSE {Err}
  ELSE {Err}
Contains(c, h, key) ==
  IF Kind(c, h) # "m" THEN Soft(c, h, <<1, 0>>)
  ELSE IF ~HeadOK(c, h) THEN {<<1, 0>>, Err}
  ELSE LET es == Entries(c, h)
           t == TornEntry(c, h, es)
       IN IF FirstMatch(c, es, key) > 0 THEN (IF AllStrings(c, es) THEN Soft(c, h, <<1, 1>>) ELSE {<<1, 1>>, Err})
          ELSE IF AllThere(c, h, es) THEN (IF AllStrings(c, es) THEN Soft(c, h, <<1, 0>>) ELSE {<<1, 0>>, Err})
          ELSE IF t # <<>> /\ KeyIs(c, t[1], key) THEN {<<1, 1>>, Err} ELSE {Err}

--------------------------------------------------------------------------
(* Well-formed input made of the supported kinds only, map keys being strings. *)
RECURSIVE Supported(_, _)
Supported(c, h) ==
  LET k == Kind(c, h) IN
  CASE k = "a" -> LET es == Items(c, h) IN \A i \in 1..Len(es) : Supported(c, <<es[i][1], h[2], FALSE>>)
    [] k = "m" -> LET es == Entries(c, h) IN AllStrings(c, es) /\ \A i \in 1..Len(es) : Supported(c, es[i][2])
    [] IsInt(c, h) -> IntNumber(c, h) # <<>>
    [] OTHER -> k # "?"
RootOf(c) == <<0, Len(c.B), TRUE>>
OneMessage(c) == Exact(c, RootOf(c)) /\ Supported(c, RootOf(c))
(* No string in chunks, at least none that only a view could show. *)
RECURSIVE Contiguous(_, _)
Contiguous(c, h) ==
  LET k == Kind(c, h) IN
  CASE k \in {"s", "x"} -> ~Indef(Bt(c, h[1]))
    [] k = "a" -> LET es == Items(c, h) IN \A i \in 1..Len(es) : Contiguous(c, <<es[i][1], h[2], FALSE>>)
    [] k = "m" -> LET es == Entries(c, h) IN \A i \in 1..Len(es) : Contiguous(c, es[i][2])
    [] OTHER -> TRUE

(* Independent decoder; integers come out by number. *)
RECURSIVE Decode(_, _)
Decode(c, h) ==
  LET k == Kind(c, h) IN
  CASE k = "n" -> <<"n">>
    [] k = "b" -> <<"b", Bt(c, h[1]) = 245>>
    [] k \in {"i", "u"} -> <<k, IntNumber(c, h)[2]>>
    [] k = "d" -> <<"d", FloatWord(c, h)>>
    [] k \in {"s", "x"} -> <<k, Payload(c, h)>>
    [] k = "a" -> LET es == Items(c, h) IN <<"a", [i \in 1..Len(es) |-> Decode(c, <<es[i][1], h[2], FALSE>>)]>>
    [] k = "m" -> LET es == Entries(c, h) IN <<"m", [i \in 1..Len(es) |-> <<Payload(c, es[i][1]), Decode(c, es[i][2])>>]>>
RECURSIVE SameNumbers(_, _)                          \* equality with integers by number
SameNumbers(v, w) ==
  IF IsIntKind(v) THEN IsIntKind(w) /\ Num(v) = Num(w)
  ELSE /\ v[1] = w[1]
       /\ CASE v[1] = "n" -> TRUE
            [] v[1] = "d" -> SameF64(v[2], w[2])
            [] v[1] = "a" -> Len(v[2]) = Len(w[2]) /\ \A i \in 1..Len(v[2]) : SameNumbers(v[2][i], w[2][i])
            [] v[1] = "m" -> /\ Len(v[2]) = Len(w[2])
                             /\ \A i \in 1..Len(v[2]) :
                                  IF w[2][i][1] = v[2][i][1] THEN SameNumbers(v[2][i][2], w[2][i][2])
                                  ELSE \E j \in 1..Len(w[2]) : w[2][j][1] = v[2][i][1] /\ SameNumbers(v[2][i][2], w[2][j][2])
            [] OTHER -> v[2] = w[2]
Denotes(c, v) == OneMessage(c) /\ SameNumbers(v, Decode(c, RootOf(c)))

--------------------------------------------------------------------------
(* A reference encoder. wide: steps beyond the smallest head; indef: containers and strings
   of indefinite length. *)
HeadC(major, n, wide) ==
  LET opts == (IF n < 24 THEN <<<<major * 32 + n>>>> ELSE <<>>)
              \o (IF n < 256 THEN <<<<major * 32 + 24>> \o Reverse8(NatLE(n, 1))>> ELSE <<>>)
              \o (IF n < 65536 THEN <<<<major * 32 + 25>> \o Reverse8(NatLE(n, 2))>> ELSE <<>>)
              \o <<<<major * 32 + 26>> \o Reverse8(NatLE(n, 4)), <<major * 32 + 27>> \o Reverse8(NatLE(n, 8))>>
  IN opts[IF wide + 1 > Len(opts) THEN Len(opts) ELSE wide + 1]
WordHead(major, w, wide) ==
  IF \E i \in 5..8 : w[i] # 0 THEN <<major * 32 + 27>> \o Reverse8(w)
  ELSE IF w[4] >= 32 THEN (IF wide = 0 THEN <<major * 32 + 26>> \o Reverse8(SubSeq(w, 1, 4)) ELSE <<major * 32 + 27>> \o Reverse8(w))
  ELSE HeadC(major, U32(w), wide)
ChunkC(major, s, wide) ==                                       \* two chunks, one of them empty if s is short
  <<major * 32 + 31>> \o HeadC(major, Len(s) \div 2, wide) \o SubSeq(s, 1, Len(s) \div 2)
  \o HeadC(major, Len(s) - Len(s) \div 2, 0) \o SubSeq(s, Len(s) \div 2 + 1, Len(s)) \o <<255>>
TextC(major, s, wide, indef) == IF indef THEN ChunkC(major, s, wide) ELSE HeadC(major, Len(s), wide) \o s
RECURSIVE EncC(_, _, _)
RECURSIVE EncAllC(_, _, _)
EncC(v, wide, indef) ==
  LET open(m, n) == IF indef THEN <<m * 32 + 31>> ELSE HeadC(m, n, wide)
      close == IF indef THEN <<255>> ELSE <<>>
  IN CASE v[1] = "n" -> <<246>>
       [] v[1] = "b" -> <<IF v[2] THEN 245 ELSE 244>>
       [] IsIntKind(v) -> IF Num(v)[1] THEN WordHead(1, [i \in 1..8 |-> 255 - v[2][i]], wide) ELSE WordHead(0, v[2], wide)
       [] v[1] = "d" -> IF wide = 0 /\ SameF64(F32toF64(F64toF32(v[2])), v[2]) THEN <<250>> \o Reverse8(F64toF32(v[2]))
                        ELSE <<251>> \o Reverse8(v[2])
       [] v[1] = "s" -> TextC(3, v[2], wide, indef)
       [] v[1] = "x" -> TextC(2, v[2], wide, indef)
       [] v[1] = "a" -> open(4, Len(v[2])) \o EncAllC(v[2], wide, indef) \o close
       [] v[1] = "m" -> open(5, Len(v[2]))
                        \o EncAllC([i \in 1..(2 * Len(v[2])) |-> IF i % 2 = 1 THEN <<"s", v[2][(i + 1) \div 2][1]>> ELSE v[2][i \div 2][2]], wide, indef)
                        \o close
EncAllC(vs, wide, indef) == IF vs = <<>> THEN <<>> ELSE EncC(Head(vs), wide, indef) \o EncAllC(Tail(vs), wide, indef)
=============================================================================
