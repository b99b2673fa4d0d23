----------------------------- MODULE FlexFormat -----------------------------
(* FlexBuffers over byte sequences (the kinds zerialize supports).

   A handle is <<p, pw, bw, t>>: the slot at 0-based offset p is pw bytes wide, t is the
   type and bw the width of what the slot points to. Offsets point backwards; sizes stand
   just before what they measure; the types of an untyped vector's elements follow it. *)
EXTENDS Values

TNull == 0
TInt == 1
TUInt == 2
TFloat == 3
TKey == 4
TString == 5
TIInt == 6
TIUInt == 7
TIFloat == 8
TMap == 9
TVector == 10
TVInt == 11
TVUInt == 12
TVFloat == 13
TVKey == 14
TVBool == 36
TBlob == 25
TBool == 26
FixedTypes == 16..24                                  \* int, uint, float; two, three, four of them
TypedTypes == {TVInt, TVUInt, TVFloat, TVKey, TVBool}
Inline(t) == t \in {TNull, TInt, TUInt, TFloat, TBool}
Widths == {1, 2, 4, 8}

Bt(c, o) == c.B[o + 1]
Part(c, o, n) == SubSeq(c.B, o + 1, o + n)
In(c, o, n) == o >= 0 /\ n >= 0 /\ o + n <= Len(c.B)
Nat_(b) == CASE Len(b) = 1 -> b[1] [] Len(b) = 2 -> U16(b) [] Len(b) = 4 -> U32(b) [] OTHER -> U64(b)
ReadU(c, o, w) == Nat_(Part(c, o, w))                 \* needs In(c, o, w)

(* Where a slot points, or -1. *)
Target(c, p, w) == IF ~In(c, p, w) THEN -1
                   ELSE LET d == ReadU(c, p, w) IN IF d > p THEN -1 ELSE p - d
(* Size recorded before t, or -1. *)
SizeAt(c, t, w) == IF t < w \/ ~In(c, t - w, w) THEN -1 ELSE ReadU(c, t - w, w)
Aligned(o, w) == o % w = 0

ElemType(t) == CASE t = TVBool -> TBool [] t \in FixedTypes -> ((t - 16) % 3) + 1 [] OTHER -> t - TVInt + TInt
FixedLen(t) == ((t - 16) \div 3) + 2

RootHandle(c) ==
  LET n == Len(c.B) IN
  IF n < 3 \/ c.B[n] \notin Widths \/ n - 2 - c.B[n] < 0 THEN <<>>
  ELSE <<n - 2 - c.B[n], c.B[n], Pow2(c.B[n - 1] % 4), c.B[n - 1] \div 4>>

(* Elements of a vector (any sort) as handles, assuming VectorOK. *)
VecTarget(c, h) == Target(c, h[1], h[2])
VecSize(c, h) == IF h[4] \in FixedTypes THEN FixedLen(h[4]) ELSE SizeAt(c, VecTarget(c, h), h[3])
ElemHandle(c, h, i) ==                                \* i from 0
  LET t == VecTarget(c, h)
      w == h[3]
      n == VecSize(c, h)
  IN IF h[4] \in {TVector, TMap}
     THEN LET ty == Bt(c, t + n * w + i) IN <<t + i * w, w, Pow2(ty % 4), ty \div 4>>
     ELSE <<t + i * w, w, 1, ElemType(h[4])>>
VectorOK(c, h) ==
  LET t == VecTarget(c, h)
      n == IF t = -1 THEN -1 ELSE VecSize(c, h)
  IN /\ t >= 0 /\ n >= 0 /\ n <= Len(c.B) /\ Aligned(t, h[3])
     /\ In(c, t, n * (h[3] + (IF h[4] \in {TVector, TMap} THEN 1 ELSE 0)))

(* Keys: bytes up to a NUL. *)
RECURSIVE NulFrom(_, _)
NulFrom(c, o) == IF o >= Len(c.B) THEN -1 ELSE IF Bt(c, o) = 0 THEN o ELSE NulFrom(c, o + 1)
(* Keys vector of a map: <<target, width>>. *)
KeysVec(c, h) ==
  LET t == VecTarget(c, h)
      w == h[3]
  IN <<Target(c, t - 3 * w, w), ReadU(c, t - 2 * w, w)>>
KeyTarget(c, h, i) == LET k == KeysVec(c, h) IN Target(c, k[1] + i * k[2], k[2])
KeyBytes(c, h, i) == LET t == KeyTarget(c, h, i) IN Part(c, t, NulFrom(c, t) - t)
RECURSIVE Less(_, _)
Less(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE
              ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE Less(Tail(x), Tail(y))
KeysOK(c, h) ==
  LET t == VecTarget(c, h)
      w == h[3]
      n == VecSize(c, h)
  IN /\ In(c, t - 3 * w, 3 * w)
     /\ ReadU(c, t - 2 * w, w) \in Widths
     /\ LET k == KeysVec(c, h) IN
        /\ k[1] >= 0 /\ Aligned(k[1], k[2]) /\ SizeAt(c, k[1], k[2]) = n /\ In(c, k[1], n * k[2])
        /\ \A i \in 0..(n - 1) : KeyTarget(c, h, i) >= 0 /\ NulFrom(c, KeyTarget(c, h, i)) >= 0
        /\ \A i \in 1..(n - 1) : Less(KeyBytes(c, h, i - 1), KeyBytes(c, h, i))

RECURSIVE WellFormed(_, _, _)
WellFormed(c, h, fuel) ==                             \* fuel bounds the nesting
  LET t == h[4]
      x == VecTarget(c, h)
  IN /\ fuel > 0 /\ In(c, h[1], h[2]) /\ h[2] \in Widths /\ h[3] \in Widths
     /\ CASE t \in {TNull, TInt, TUInt} -> TRUE
          [] t = TBool -> \A i \in 2..h[2] : Part(c, h[1], h[2])[i] = 0
          [] t = TFloat -> h[2] \in {4, 8}
          [] t \in {TIInt, TIUInt} -> x >= 0 /\ In(c, x, h[3]) /\ Aligned(x, h[3])
          [] t = TIFloat -> h[3] \in {4, 8} /\ x >= 0 /\ In(c, x, h[3]) /\ Aligned(x, h[3])
          [] t = TString -> /\ x >= 0 /\ SizeAt(c, x, h[3]) >= 0 /\ Aligned(x, h[3])
                            /\ In(c, x, SizeAt(c, x, h[3]) + 1) /\ Bt(c, x + SizeAt(c, x, h[3])) = 0
          [] t = TKey -> x >= 0 /\ NulFrom(c, x) >= 0
          [] t = TBlob -> x >= 0 /\ SizeAt(c, x, h[3]) >= 0 /\ Aligned(x, h[3]) /\ In(c, x, SizeAt(c, x, h[3]))
          [] t \in {TVector} \cup TypedTypes \cup FixedTypes ->
               VectorOK(c, h) /\ \A i \in 0..(VecSize(c, h) - 1) : WellFormed(c, ElemHandle(c, h, i), fuel - 1)
          [] t = TMap -> /\ VectorOK(c, h) /\ KeysOK(c, h)
                         /\ \A i \in 0..(VecSize(c, h) - 1) : WellFormed(c, ElemHandle(c, h, i), fuel - 1)
          [] OTHER -> FALSE
MaxNesting == 60
OneMessage(c) == RootHandle(c) # <<>> /\ WellFormed(c, RootHandle(c), MaxNesting)

(* The value a well-formed message denotes. *)
FloatAt(c, o, w) == IF w = 8 THEN Part(c, o, 8) ELSE F32toF64(Part(c, o, 4))
RECURSIVE Decode(_, _)
Decode(c, h) ==
  LET t == h[4]
      x == VecTarget(c, h)
  IN CASE t = TNull -> <<"n">>
       [] t = TBool -> <<"b", Part(c, h[1], h[2]) # Rep(0, h[2])>>
       [] t = TInt -> <<"i", SignExtend(Part(c, h[1], h[2]))>>
       [] t = TUInt -> <<"u", ZeroExtend(Part(c, h[1], h[2]))>>
       [] t = TFloat -> <<"d", FloatAt(c, h[1], h[2])>>
       [] t = TIInt -> <<"i", SignExtend(Part(c, x, h[3]))>>
       [] t = TIUInt -> <<"u", ZeroExtend(Part(c, x, h[3]))>>
       [] t = TIFloat -> <<"d", FloatAt(c, x, h[3])>>
       [] t = TString -> <<"s", Part(c, x, SizeAt(c, x, h[3]))>>
       [] t = TKey -> <<"k", Part(c, x, NulFrom(c, x) - x)>>
       [] t = TBlob -> <<"x", Part(c, x, SizeAt(c, x, h[3]))>>
       [] t = TMap -> <<"m", [i \in 1..VecSize(c, h) |-> <<KeyBytes(c, h, i - 1), Decode(c, ElemHandle(c, h, i - 1))>>]>>
       [] OTHER -> <<"a", [i \in 1..VecSize(c, h) |-> Decode(c, ElemHandle(c, h, i - 1))]>>
Meaning(c) == Decode(c, RootHandle(c))

RECURSIVE SameValue(_, _)                             \* up to the order of map entries
SameValue(v, w) ==
  /\ v[1] = w[1]
  /\ CASE v[1] = "n" -> TRUE
       [] v[1] = "d" -> SameF64(v[2], w[2])
       [] v[1] = "a" -> Len(v[2]) = Len(w[2]) /\ \A i \in 1..Len(v[2]) : SameValue(v[2][i], w[2][i])
       [] v[1] = "m" -> /\ Len(v[2]) = Len(w[2])
                        /\ \A i \in 1..Len(v[2]) : \E j \in 1..Len(w[2]) : w[2][j][1] = v[2][i][1] /\ SameValue(v[2][i][2], w[2][j][2])
       [] OTHER -> v[2] = w[2]
Denotes(c, v) == OneMessage(c) /\ SameValue(v, Meaning(c))

--------------------------------------------------------------------------
(* A reference encoder. Every slot is W bytes wide (what does not fit is not encoded);
   typed: homogeneous vectors of numbers become typed or fixed ones; ind: numbers are
   stored indirectly. Put gives <<bytes so far, item>>, item = <<type, what stands in the
   slot: <<"lit", bytes>> or <<"at", offset>> >>. *)
Pad(B, w) == B \o Rep(0, (w - (Len(B) % w)) % w)
Log2(w) == CASE w = 1 -> 0 [] w = 2 -> 1 [] w = 4 -> 2 [] OTHER -> 3
Slot(B, it, W) == IF it[2][1] = "lit" THEN B \o it[2][2] ELSE B \o NatLE(Len(B) - it[2][2], W)
RECURSIVE Slots(_, _, _)
Slots(B, its, W) == IF its = <<>> THEN B ELSE Slots(Slot(B, Head(its), W), Tail(its), W)
Sized(B, bytes, W) == LET P == Pad(B, W) \o NatLE(Len(bytes), W) IN <<P \o bytes, Len(P)>>
NumItem(B, t, ti, word, W, ind) ==
  IF ind THEN LET P == Pad(B, W) IN <<P \o SubSeq(word, 1, W), <<ti, <<"at", Len(P)>>>>>>
  ELSE <<B, <<t, <<"lit", SubSeq(word, 1, W)>>>>>>
Packed(its, W) == [i \in 1..Len(its) |-> its[i][1] * 4 + Log2(W)]
Homogeneous(its) == its # <<>> /\ its[1][1] \in {TInt, TUInt, TFloat, TBool} /\ \A i \in 1..Len(its) : its[i][1] = its[1][1]
RECURSIVE InsertKey(_, _)
InsertKey(s, e) == IF s = <<>> THEN <<e>> ELSE IF Less(e[1], s[1][1]) THEN <<e>> \o s ELSE <<Head(s)>> \o InsertKey(Tail(s), e)
RECURSIVE SortKeys(_)
SortKeys(es) == IF es = <<>> THEN <<>> ELSE InsertKey(SortKeys(Tail(es)), Head(es))
RECURSIVE Put(_, _, _, _, _)
RECURSIVE PutAll(_, _, _, _, _, _)
RECURSIVE PutKeys(_, _, _)
PutKeys(B, es, acc) == IF es = <<>> THEN <<B, acc>>
                       ELSE PutKeys(B \o Head(es)[1] \o <<0>>, Tail(es), Append(acc, <<TKey, <<"at", Len(B)>>>>))
PutAll(B, vs, acc, W, typed, ind) ==
  IF vs = <<>> THEN <<B, acc>>
  ELSE LET r == Put(B, Head(vs), W, typed, ind) IN PutAll(r[1], Tail(vs), Append(acc, r[2]), W, typed, ind)
Put(B, v, W, typed, ind) ==
  CASE v[1] = "n" -> <<B, <<TNull, <<"lit", Rep(0, W)>>>>>>
    [] v[1] = "b" -> <<B, <<TBool, <<"lit", NatLE(IF v[2] THEN 1 ELSE 0, W)>>>>>>
    [] v[1] = "i" -> NumItem(B, TInt, TIInt, v[2], W, ind)
    [] v[1] = "u" -> NumItem(B, TUInt, TIUInt, v[2], W, ind)
    [] v[1] = "d" -> NumItem(B, TFloat, TIFloat, IF W = 8 THEN v[2] ELSE F64toF32(v[2]), W, ind)
    [] v[1] = "s" -> LET r == Sized(B, v[2], W) IN <<r[1] \o <<0>>, <<TString, <<"at", r[2]>>>>>>
    [] v[1] = "x" -> LET r == Sized(B, v[2], W) IN <<r[1], <<TBlob, <<"at", r[2]>>>>>>
    [] v[1] = "a" ->
         LET r == PutAll(B, v[2], <<>>, W, typed, ind)
             its == r[2]
             n == Len(its)
             homo == typed /\ Homogeneous(its)
             fixed == homo /\ n \in 2..4 /\ its[1][1] # TBool
             P == IF fixed THEN Pad(r[1], W) ELSE Pad(r[1], W) \o NatLE(n, W)
             ty == IF fixed THEN 16 + (n - 2) * 3 + its[1][1] - 1
                   ELSE IF homo THEN (IF its[1][1] = TBool THEN TVBool ELSE its[1][1] - TInt + TVInt) ELSE TVector
         IN <<Slots(P, its, W) \o (IF homo THEN <<>> ELSE Packed(its, W)), <<ty, <<"at", Len(P)>>>>>>
    [] v[1] = "m" ->
         LET es == SortKeys(v[2])
             k == PutKeys(B, es, <<>>)
             KP == Pad(k[1], W) \o NatLE(Len(es), W)
             KB == Slots(KP, k[2], W)
             r == PutAll(KB, [i \in 1..Len(es) |-> es[i][2]], <<>>, W, typed, ind)
             P1 == Pad(r[1], W)
             P == P1 \o NatLE(Len(P1) - Len(KP), W) \o NatLE(W, W) \o NatLE(Len(es), W)
         IN <<Slots(P, r[2], W) \o Packed(r[2], W), <<TMap, <<"at", Len(P)>>>>>>
EncF(v, W, typed, ind) ==
  LET r == Put(<<>>, v, W, typed, ind)
      P == Pad(r[1], W)
  IN Slot(P, r[2], W) \o <<r[2][1] * 4 + Log2(W), W>>
(* What an encoding with slots of W bytes can hold. *)
RECURSIVE FitsW(_, _)
FitsW(v, W) ==
  CASE v[1] = "i" -> FitsSigned(Num(v), W)
    [] v[1] = "u" -> FitsUnsigned(Num(v), W)
    [] v[1] = "d" -> W = 8 \/ (W = 4 /\ F32toF64(F64toF32(v[2])) = v[2])
    [] v[1] = "a" -> \A i \in 1..Len(v[2]) : FitsW(v[2][i], W)
    [] v[1] = "m" -> \A i \in 1..Len(v[2]) : FitsW(v[2][i][2], W)
    [] OTHER -> TRUE
=============================================================================
