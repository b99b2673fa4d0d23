----------------------------- MODULE DebugText -----------------------------
(* The debug text of a reader, without the blanks and line breaks outside its quotes.
   MsgPack and Flex show the whole value: kinds, numbers, escaped strings and keys, sizes of
   blobs, elements in order. Zera shows its root: the kind with the scalar or the size.
   Doubles are judged by sign and class, and exactly when they are whole and below 10^6. *)
EXTENDS Values

Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
EscByte(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>>
                [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>>
                [] c < 32 -> <<92, 117, 48, 48, Hex(c \div 16), Hex(c % 16)>>
                [] OTHER -> <<c>>
Plain(c) == c >= 32 /\ c # 34 /\ c # 92
RECURSIVE Esc(_)
Esc(s) == IF \A i \in 1..Len(s) : Plain(s[i]) THEN s
          ELSE IF Len(s) = 1 THEN EscByte(s[1])
          ELSE LET m == Len(s) \div 2 IN Esc(SubSeq(s, 1, m)) \o Esc(SubSeq(s, m + 1, Len(s)))
Quoted(s) == <<34>> \o Esc(s) \o <<34>>

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
(* An unsigned word divided by ten: <<quotient word, remainder>>, from the top byte down. *)
RECURSIVE Div10(_, _, _, _)
Div10(w, i, r, q) == IF i = 0 THEN <<q, r>>
                     ELSE LET x == 256 * r + w[i] IN Div10(w, i - 1, x % 10, [q EXCEPT ![i] = x \div 10])
RECURSIVE DecWord(_)
DecWord(w) == LET d == Div10(w, 8, 0, w) IN
              IF \A i \in 1..8 : d[1][i] = 0 THEN <<48 + d[2]>> ELSE Append(DecWord(d[1]), 48 + d[2])
RECURSIVE NegFrom(_, _, _)
NegFrom(w, i, carry) == IF i > Len(w) THEN <<>>
                        ELSE LET x == 255 - w[i] + carry IN <<x % 256>> \o NegFrom(w, i + 1, x \div 256)
DecInt(n) == IF n[1] THEN <<45>> \o DecWord(NegFrom(n[2], 1, 1)) ELSE DecWord(n[2])

(* Doubles. *)
WholeSmall(d) == LET e == F64Exp(d) - 1023 IN
                 F64Lo29(d) = 0 /\ e \in 0..19 /\ F64Hi23(d) % Pow2(23 - e) = 0
                 /\ (8388608 + F64Hi23(d)) \div Pow2(23 - e) < 1000000
IsZero(d) == F64Exp(d) = 0 /\ F64Hi23(d) = 0 /\ F64Lo29(d) = 0
Minus(d) == IF F64Sign(d) = 1 THEN <<45>> ELSE <<>>
Exactly(d) == F64Exp(d) = 2047 \/ IsZero(d) \/ WholeSmall(d)
ExactText(d) == CASE IsNaN64(d) -> <<110, 97, 110>>
                  [] F64Exp(d) = 2047 -> Minus(d) \o <<105, 110, 102>>
                  [] IsZero(d) -> Minus(d) \o <<48>>
                  [] OTHER -> Minus(d) \o Dec((8388608 + F64Hi23(d)) \div Pow2(23 - (F64Exp(d) - 1023)))
IsNumberByte(c) == c \in 48..57 \/ c \in {43, 45, 46, 101}          \* digits + - . e

(* Where the text goes on after s has been read at i; 0 if s is not there. *)
At(t, i, s) == IF i > 0 /\ i + Len(s) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(s) - 1) = s THEN i + Len(s) ELSE 0
RECURSIVE NumberEnd(_, _)
NumberEnd(t, i) == IF i <= Len(t) /\ IsNumberByte(t[i]) THEN NumberEnd(t, i + 1) ELSE i
ReadDouble(t, i, d) ==
  IF i = 0 THEN 0
  ELSE IF IsNaN64(d) THEN (IF At(t, i, <<45>>) # 0 THEN At(t, i + 1, ExactText(d)) ELSE At(t, i, ExactText(d)))
  ELSE IF Exactly(d)
  THEN LET j == At(t, i, ExactText(d)) IN IF j > 0 /\ j <= Len(t) /\ IsNumberByte(t[j]) THEN 0 ELSE j
  ELSE LET s == At(t, i, Minus(d))
           e == IF s = 0 THEN 0 ELSE NumberEnd(t, s) IN
       IF s = 0 \/ e = s THEN 0 ELSE IF t[s] \in 48..57 THEN e ELSE 0
ReadInt(t, i, n) == LET j == At(t, i, DecInt(n)) IN IF j > 0 /\ j <= Len(t) /\ IsNumberByte(t[j]) THEN 0 ELSE j

Words == [n |-> <<110, 117, 108, 108>>, b |-> <<98, 111, 111, 108>>, i |-> <<105, 110, 116>>, u |-> <<117, 105, 110, 116>>,
          d |-> <<102, 108, 111, 97, 116>>, s |-> <<115, 116, 114>>, m |-> <<109, 97, 112>>, a |-> <<97, 114, 114>>]
Blob(p) == IF p = "M" THEN <<98, 105, 110>> ELSE <<98, 108, 111, 98>>
Sep(p) == IF p = "M" THEN <<58>> ELSE <<124>>
Truth(b) == IF b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
Size(s) == IF Len(s) > 0 /\ s[1] < 0 THEN s[2] ELSE Len(s)          \* long ones are digests
First(a, b) == IF a > 0 THEN a ELSE b

RECURSIVE Read(_, _, _, _), ReadList(_, _, _, _, _), ReadMap(_, _, _, _, _, _, _)
ReadList(p, t, i, vs, k) ==
  IF i = 0 THEN 0 ELSE IF k > Len(vs) THEN i
  ELSE ReadList(p, t, IF k < Len(vs) THEN At(t, Read(p, t, i, vs[k]), <<44>>) ELSE Read(p, t, i, vs[k]), vs, k + 1)
(* Entries in any order: es[j] begins with heads[j]; left are those not seen yet, h the one to
   try first. *)
ReadMap(p, t, i, es, heads, left, h) ==
  IF i = 0 \/ left = {} THEN i
  ELSE LET here(j) == At(t, i, heads[j]) > 0
           k == IF h \in left /\ here(h) THEN h ELSE IF \E j \in left : here(j) THEN CHOOSE j \in left : here(j) ELSE 0
           e == IF k = 0 THEN 0 ELSE Read(p, t, At(t, i, heads[k]), es[k][2])
           rest == left \ {k}
       IN IF k = 0 THEN 0 ELSE ReadMap(p, t, IF rest # {} THEN At(t, e, <<44>>) ELSE e, es, heads, rest, k + 1)
Heads(es) == SubSeq([j \in 1..Len(es) |-> Quoted(es[j][1]) \o <<58>>], 1, Len(es))
Read(p, t, i, v) ==
  IF i = 0 THEN 0
  ELSE CASE v[1] = "n" -> At(t, i, Words.n \o Sep(p) \o Words.n)
         [] v[1] = "b" -> At(t, i, Words.b \o Sep(p) \o Truth(v[2]))
         [] IsIntKind(v) -> First(IF p = "M" \/ v[1] = "i" THEN ReadInt(t, At(t, i, Words.i \o Sep(p)), Num(v)) ELSE 0,
                                  IF p = "M" \/ v[1] = "u" THEN ReadInt(t, At(t, i, Words.u \o Sep(p)), Num(v)) ELSE 0)
         [] v[1] = "d" -> ReadDouble(t, At(t, i, Words.d \o Sep(p)), v[2])
         [] v[1] = "s" -> At(t, i, Words.s \o Sep(p) \o Quoted(v[2]))
         [] v[1] = "x" -> At(t, i, Blob(p) \o <<91, 115, 105, 122, 101, 61>> \o Dec(Size(v[2])) \o <<93>>)
         [] v[1] = "a" -> At(t, ReadList(p, t, At(t, i, Words.a \o <<91>>), v[2], 1), <<93>>)
         [] v[1] = "m" -> At(t, ReadMap(p, t, At(t, i, Words.m \o <<123>>), v[2], Heads(v[2]), 1..Len(v[2]), 1), <<125>>)

LenIs(n) == <<61>> \o Dec(n) \o <<93>>
ZeraBody(t, i, v) ==
  CASE v[1] = "n" -> At(t, i, Words.n)
    [] v[1] = "b" -> At(t, i, Truth(v[2]))
    [] IsIntKind(v) -> ReadInt(t, i, Num(v))
    [] v[1] = "d" -> ReadDouble(t, i, v[2])
    [] v[1] = "s" -> At(t, i, Words.s \o <<91, 108, 101, 110>> \o LenIs(Size(v[2])))
    [] v[1] = "a" -> At(t, i, Words.a \o <<91, 110>> \o LenIs(Len(v[2])))
    [] v[1] = "m" -> At(t, i, Words.m)
    [] v[1] = "x" -> At(t, i, Blob("Z") \o <<91, 108, 101, 110>> \o LenIs(Size(v[2])))
FlexName == <<70, 108, 101, 120>>
ZeraOpen == <<90, 101, 114, 97, 40>>
(* Does the text describe v and nothing more? *)
Describes(p, v, t) ==
  LET end == CASE p = "Z" -> At(t, ZeraBody(t, At(t, 1, ZeraOpen), v), <<41>>)
               [] p = "F" -> Read(p, t, At(t, 1, FlexName), v)
               [] OTHER -> Read(p, t, 1, v)
  IN end = Len(t) + 1
=============================================================================
