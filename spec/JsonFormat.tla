----------------------------- MODULE JsonFormat -----------------------------
(* JSON texts (RFC 8259): which byte sequences are one, and what each denotes. A text is
   parsed to a Value (module Values): integers that 64 bits hold are "u" (no minus sign) or
   "i", every other number is "d". What double a numeral stands for is given by a table of
   <<numeral, word>> pairs recorded with the text; the word may be <<>> (infinite). Members
   of an object stay in order, repeated names included.
   A parse result is <<value, next position>>, or Fail. *)
EXTENDS Values, Base64

Fail == <<>>
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE -1
IsWs(b) == b \in {9, 10, 13, 32}
RECURSIVE Ws(_, _)
Ws(s, i) == IF IsWs(At(s, i)) THEN Ws(s, i + 1) ELSE i
Has(s, i, lit) == i + Len(lit) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(lit) - 1) = lit
LitNull  == <<110, 117, 108, 108>>
LitTrue  == <<116, 114, 117, 101>>
LitFalse == <<102, 97, 108, 115, 101>>

--------------------------------------------------------------------------
(* UTF-8 (RFC 3629) and code points. *)
Tail80(b) == b \in 128..191
SeqLen(s, i) ==                                       \* length of the character at i, 0 if there is none
  LET b == At(s, i)
      b2 == At(s, i + 1)
  IN CASE b \in 0..127 -> 1
       [] b \in 194..223 -> IF Tail80(b2) THEN 2 ELSE 0
       [] b \in 224..239 -> IF Tail80(b2) /\ Tail80(At(s, i + 2)) /\ (b = 224 => b2 >= 160) /\ (b = 237 => b2 <= 159) THEN 3 ELSE 0
       [] b \in 240..244 -> IF Tail80(b2) /\ Tail80(At(s, i + 2)) /\ Tail80(At(s, i + 3)) /\ (b = 240 => b2 >= 144) /\ (b = 244 => b2 <= 143) THEN 4 ELSE 0
       [] OTHER -> 0
RECURSIVE Utf8From(_, _)
Utf8From(s, i) == IF i > Len(s) THEN TRUE ELSE LET n == SeqLen(s, i) IN n > 0 /\ Utf8From(s, i + n)
Utf8(s) == Utf8From(s, 1)
Utf8Of(c) ==
  CASE c < 128 -> <<c>>
    [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
    [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

(* Strings, from the character after the opening quote. *)
HexVal(b) == CASE b \in 48..57 -> b - 48 [] b \in 65..70 -> b - 55 [] b \in 97..102 -> b - 87 [] OTHER -> -1
Hex4(s, i) == IF \E j \in 0..3 : HexVal(At(s, i + j)) = -1 THEN -1
              ELSE HexVal(s[i]) * 4096 + HexVal(s[i + 1]) * 256 + HexVal(s[i + 2]) * 16 + HexVal(s[i + 3])
Escaped(b) == CASE b = 34 -> 34 [] b = 92 -> 92 [] b = 47 -> 47 [] b = 98 -> 8 [] b = 102 -> 12
                [] b = 110 -> 10 [] b = 114 -> 13 [] b = 116 -> 9 [] OTHER -> -1
RECURSIVE PlainEnd(_, _)                              \* end of the run of characters without escapes
PlainEnd(s, i) == IF i > Len(s) \/ s[i] < 32 \/ s[i] \in {34, 92} THEN i
                  ELSE LET n == SeqLen(s, i) IN IF n = 0 THEN i ELSE PlainEnd(s, i + n)
RECURSIVE Text(_, _, _)
Text(s, i, acc) ==
  LET e == PlainEnd(s, i)
      b == At(s, e)
      got == acc \o SubSeq(s, i, e - 1)
      n == At(s, e + 1)
      hi == Hex4(s, e + 2)
      lo == IF Has(s, e + 6, <<92, 117>>) THEN Hex4(s, e + 8) ELSE -1
  IN CASE b = 34 -> <<got, e + 1>>
       [] b = 92 /\ Escaped(n) # -1 -> Text(s, e + 2, got \o <<Escaped(n)>>)
       [] b = 92 /\ n = 117 /\ hi # -1 /\ ~(hi \in 55296..57343) -> Text(s, e + 6, got \o Utf8Of(hi))
       [] b = 92 /\ n = 117 /\ hi \in 55296..56319 /\ lo \in 56320..57343 ->
            Text(s, e + 12, got \o Utf8Of(65536 + (hi - 55296) * 1024 + lo - 56320))
       [] OTHER -> Fail
StringAt(s, i) == IF At(s, i) = 34 THEN Text(s, i + 1, <<>>) ELSE Fail

--------------------------------------------------------------------------
(* Numerals. *)
IsDig(b) == b \in 48..57
RECURSIVE Digs(_, _)
Digs(s, i) == IF IsDig(At(s, i)) THEN Digs(s, i + 1) ELSE i
(* <<end of the integer part, end of the numeral>>, or Fail *)
Numeral(s, i) ==
  LET a == IF At(s, i) = 45 THEN i + 1 ELSE i
      b == IF At(s, a) = 48 THEN a + 1 ELSE Digs(s, a)
      c == IF At(s, b) = 46 THEN Digs(s, b + 1) ELSE b
      x == IF At(s, c) \in {69, 101} THEN (IF At(s, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1) ELSE 0
      d == IF x = 0 THEN c ELSE Digs(s, x)
  IN IF b = a \/ IsDig(At(s, b)) \/ c = b + 1 \/ (x # 0 /\ d = x) THEN Fail ELSE <<b, d>>
(* Decimal digits to a 64-bit word, least significant byte first; <<>> if too large. *)
RECURSIVE AddMul(_, _)                                \* w * 10 + c, bytewise; carry out of the top makes it <<>>
AddMul(w, c) == IF w = <<>> THEN (IF c = 0 THEN <<>> ELSE <<-1>>)
                ELSE <<(w[1] * 10 + c) % 256>> \o AddMul(Tail(w), (w[1] * 10 + c) \div 256)
RECURSIVE Word(_, _, _)
Word(s, i, w) == IF ~IsDig(At(s, i)) THEN w
                 ELSE LET n == AddMul(w, s[i] - 48) IN IF Len(n) > 8 THEN <<>> ELSE Word(s, i + 1, n)
RECURSIVE NegFrom(_, _, _)                            \* two's complement
NegFrom(w, i, carry) == IF i > 8 THEN <<>> ELSE <<(255 - w[i] + carry) % 256>> \o NegFrom(w, i + 1, (255 - w[i] + carry) \div 256)
Negate(w) == NegFrom(w, 1, 1)
Table(tab, t) == IF \E k \in 1..Len(tab) : tab[k][1] = t THEN tab[CHOOSE k \in 1..Len(tab) : tab[k][1] = t][2] ELSE <<-1>>
NumberAt(s, i, tab) ==
  LET n == Numeral(s, i)
      neg == At(s, i) = 45
      w == IF n[1] # n[2] THEN <<>> ELSE Word(s, IF neg THEN i + 1 ELSE i, Rep(0, 8))
      min == Rep(0, 7) \o <<128>>
      d == Table(tab, SubSeq(s, i, n[2] - 1))
  IN IF n = Fail THEN Fail
     ELSE IF w # <<>> /\ ~neg THEN <<<<"u", w>>, n[2]>>
     ELSE IF w # <<>> /\ (w[8] < 128 \/ w = min) THEN <<<<"i", Negate(w)>>, n[2]>>
     ELSE IF d = <<>> THEN Fail ELSE <<<<"d", d>>, n[2]>>

--------------------------------------------------------------------------
RECURSIVE ValueAtPos(_, _, _)
RECURSIVE ElemsAt(_, _, _, _)
RECURSIVE MembersAt(_, _, _, _)
ElemsAt(s, i, tab, acc) ==                            \* at the first character of an element
  LET r == ValueAtPos(s, i, tab)
      j == Ws(s, r[2])
  IN IF r = Fail THEN Fail
     ELSE IF At(s, j) = 93 THEN <<<<"a", Append(acc, r[1])>>, j + 1>>
     ELSE IF At(s, j) = 44 THEN ElemsAt(s, Ws(s, j + 1), tab, Append(acc, r[1]))
     ELSE Fail
MembersAt(s, i, tab, acc) ==
  LET k == StringAt(s, i)
      c == Ws(s, k[2])
      r == ValueAtPos(s, Ws(s, c + 1), tab)
      j == Ws(s, r[2])
  IN IF k = Fail THEN Fail
     ELSE IF At(s, c) # 58 THEN Fail
     ELSE IF r = Fail THEN Fail
     ELSE IF At(s, j) = 125 THEN <<<<"m", Append(acc, <<k[1], r[1]>>)>>, j + 1>>
     ELSE IF At(s, j) = 44 THEN MembersAt(s, Ws(s, j + 1), tab, Append(acc, <<k[1], r[1]>>))
     ELSE Fail
ValueAtPos(s, i, tab) ==
  LET b == At(s, i)
      j == Ws(s, i + 1)
  IN CASE b = 91 -> IF At(s, j) = 93 THEN <<<<"a", <<>>>>, j + 1>> ELSE ElemsAt(s, j, tab, <<>>)
       [] b = 123 -> IF At(s, j) = 125 THEN <<<<"m", <<>>>>, j + 1>> ELSE MembersAt(s, j, tab, <<>>)
       [] b = 34 -> LET t == StringAt(s, i) IN IF t = Fail THEN Fail ELSE <<<<"s", t[1]>>, t[2]>>
       [] Has(s, i, LitNull) -> <<<<"n">>, i + 4>>
       [] Has(s, i, LitTrue) -> <<<<"b", TRUE>>, i + 4>>
       [] Has(s, i, LitFalse) -> <<<<"b", FALSE>>, i + 5>>
       [] OTHER -> NumberAt(s, i, tab)
(* The value of a whole text, or Fail. *)
Parse(s, tab) == LET r == ValueAtPos(s, Ws(s, 1), tab) IN
                 IF r = Fail THEN Fail ELSE IF Ws(s, r[2]) = Len(s) + 1 THEN r[1] ELSE Fail

--------------------------------------------------------------------------
(* Blobs stand in a JSON text as ["~b", base64, "base64"]. *)
BlobMark == <<126, 98>>
BlobName == <<98, 97, 115, 101, 54, 52>>
BlobShape(v) == /\ v[1] = "a" /\ Len(v[2]) = 3
                /\ v[2][1] = <<"s", BlobMark>> /\ v[2][3] = <<"s", BlobName>> /\ v[2][2][1] = "s"
BlobText(v) == v[2][2][2]
BlobReadable(v) == BlobShape(v) /\ Readable(BlobText(v))
RECURSIVE Logical(_)                                  \* blobs instead of what stands for them
Logical(v) ==
  CASE BlobReadable(v) -> <<"x", Decode(BlobText(v))>>
    [] v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> Logical(v[2][i])]>>
    [] v[1] = "m" -> <<"m", [i \in 1..Len(v[2]) |-> <<v[2][i][1], Logical(v[2][i][2])>>]>>
    [] OTHER -> v
RECURSIVE AllBlobsReadable(_)
AllBlobsReadable(v) ==
  CASE BlobShape(v) -> BlobReadable(v)
    [] v[1] = "a" -> \A i \in 1..Len(v[2]) : AllBlobsReadable(v[2][i])
    [] v[1] = "m" -> \A i \in 1..Len(v[2]) : AllBlobsReadable(v[2][i][2])
    [] OTHER -> TRUE

(* What JSON can hold: finite numbers and text that is UTF-8. *)
Finite(w) == F64Exp(w) # 2047
RECURSIVE Holds(_)
Holds(v) ==
  CASE v[1] = "d" -> Finite(v[2])
    [] v[1] = "s" -> Utf8(v[2])
    [] v[1] = "a" -> \A i \in 1..Len(v[2]) : Holds(v[2][i])
    [] v[1] = "m" -> \A i \in 1..Len(v[2]) : Utf8(v[2][i][1]) /\ Holds(v[2][i][2])
    [] OTHER -> TRUE
(* v as a text would give it back: numbers by value, members in order, blobs as their text. *)
RECURSIVE Same(_, _)
Same(v, p) ==
  CASE IsIntKind(v) -> IsIntKind(p) /\ Num(v) = Num(p)
    [] v[1] = "x" -> BlobShape(p) /\ BlobText(p) = Encode(v[2])
    [] v[1] = "a" -> p[1] = "a" /\ Len(v[2]) = Len(p[2]) /\ \A i \in 1..Len(v[2]) : Same(v[2][i], p[2][i])
    [] v[1] = "m" -> p[1] = "m" /\ Len(v[2]) = Len(p[2]) /\ \A i \in 1..Len(v[2]) : v[2][i][1] = p[2][i][1] /\ Same(v[2][i][2], p[2][i][2])
    [] OTHER -> p = v

--------------------------------------------------------------------------
(* A reference encoder, for checking the definition. esc: every character of a string is
   written as an escape; sp: white space between tokens. Doubles are given numerals by ntab. *)
Hexes(n) == [k \in 1..4 |-> LET d == (n \div (16 ^ (4 - k))) % 16 IN IF d < 10 THEN 48 + d ELSE 87 + d]
U4(n) == <<92, 117>> \o Hexes(n)
CodePoint(s, i) == LET n == SeqLen(s, i) IN
  CASE n = 1 -> s[i]
    [] n = 2 -> (s[i] - 192) * 64 + s[i + 1] - 128
    [] n = 3 -> (s[i] - 224) * 4096 + (s[i + 1] - 128) * 64 + s[i + 2] - 128
    [] OTHER -> (s[i] - 240) * 262144 + (s[i + 1] - 128) * 4096 + (s[i + 2] - 128) * 64 + s[i + 3] - 128
RECURSIVE EncText(_, _, _)
EncText(s, i, esc) ==
  IF i > Len(s) THEN <<>>
  ELSE LET n == SeqLen(s, i)
           c == CodePoint(s, i)
           one == IF esc \/ c < 32 \/ c \in {34, 92}
                  THEN (IF c < 65536 THEN U4(c) ELSE U4(55296 + (c - 65536) \div 1024) \o U4(56320 + ((c - 65536) % 1024)))
                  ELSE SubSeq(s, i, i + n - 1)
       IN one \o EncText(s, i + n, esc)
Quoted(s, esc) == <<34>> \o EncText(s, 1, esc) \o <<34>>
RECURSIVE DivWord(_, _, _)                            \* w \div 10 from the most significant byte: <<quotient, remainder>>
DivWord(w, i, r) == IF i = 0 THEN <<<<>>, r>>
                    ELSE LET x == r * 256 + w[i]
                             below == DivWord(w, i - 1, x % 10)
                         IN <<below[1] \o <<x \div 10>>, below[2]>>
RECURSIVE Decimal(_)
Decimal(w) == LET q == DivWord(w, 8, 0) IN
              (IF \A i \in 1..8 : q[1][i] = 0 THEN <<>> ELSE Decimal(q[1])) \o <<48 + q[2]>>
RECURSIVE EncJ(_, _, _, _)
RECURSIVE JoinJ(_, _)
JoinJ(parts, sep) == IF Len(parts) = 0 THEN <<>> ELSE IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o sep \o JoinJ(Tail(parts), sep)
EncJ(v, esc, sp, ntab) ==
  LET gap == IF sp THEN <<32, 10>> ELSE <<>>
      comma == gap \o <<44>> \o gap
  IN CASE v[1] = "n" -> LitNull
       [] v[1] = "b" -> IF v[2] THEN LitTrue ELSE LitFalse
       [] IsIntKind(v) -> IF Num(v)[1] THEN <<45>> \o Decimal(Negate(v[2])) ELSE Decimal(v[2])
       [] v[1] = "d" -> ntab[CHOOSE k \in 1..Len(ntab) : ntab[k][2] = v[2]][1]
       [] v[1] = "s" -> Quoted(v[2], esc)
       [] v[1] = "x" -> EncJ(<<"a", <<<<"s", BlobMark>>, <<"s", Encode(v[2])>>, <<"s", BlobName>>>>>>, esc, sp, ntab)
       [] v[1] = "a" -> <<91>> \o gap \o JoinJ([i \in 1..Len(v[2]) |-> EncJ(v[2][i], esc, sp, ntab)], comma) \o gap \o <<93>>
       [] v[1] = "m" -> <<123>> \o gap
                        \o JoinJ([i \in 1..Len(v[2]) |-> Quoted(v[2][i][1], esc) \o gap \o <<58>> \o gap \o EncJ(v[2][i][2], esc, sp, ntab)], comma)
                        \o gap \o <<125>>
=============================================================================
