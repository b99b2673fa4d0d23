------------------------------- MODULE Base64 -------------------------------
(* RFC 4648 Base64 with the standard alphabet and padding, and the reading of
   arbitrary text: the characters before the first '=' denote a bit string, of which
   the whole bytes count; any other character there is an error. *)
EXTENDS Integers, Sequences

Pad == 61
IsAlpha(c) == c \in 65..90 \/ c \in 97..122 \/ c \in 48..57 \/ c = 43 \/ c = 47
Char(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4
           ELSE IF v = 62 THEN 43 ELSE 47
Sextet(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71
             ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE 63

ByteAt(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
(* the j-th character of the encoding, by quantum of three bytes *)
EncodedLen(n) == 4 * ((n + 2) \div 3)
EncChar(b, j) ==
  LET q == (j - 1) \div 4
      r == (j - 1) % 4
      w == 65536 * ByteAt(b, 3 * q + 1) + 256 * ByteAt(b, 3 * q + 2) + ByteAt(b, 3 * q + 3)
      left == Len(b) - 3 * q
  IN IF (left = 1 /\ r >= 2) \/ (left = 2 /\ r = 3) THEN Pad
     ELSE Char((w \div (64 ^ (3 - r))) % 64)
Encode(b) == [j \in 1..EncodedLen(Len(b)) |-> EncChar(b, j)]

Significant(t) == LET p == {i \in 1..Len(t) : t[i] = Pad}
                  IN IF p = {} THEN Len(t) ELSE (CHOOSE i \in p : \A j \in p : i <= j) - 1
Readable(t) == \A i \in 1..Significant(t) : IsAlpha(t[i])
DecByte(t, n, k) ==                      \* k-th byte of the n significant characters
  LET q == (k - 1) \div 3
      r == (k - 1) % 3
      s(i) == IF i <= n THEN Sextet(t[i]) ELSE 0
  IN CASE r = 0 -> (s(4 * q + 1) * 4 + s(4 * q + 2) \div 16) % 256
       [] r = 1 -> ((s(4 * q + 2) % 16) * 16 + s(4 * q + 3) \div 4) % 256
       [] OTHER -> ((s(4 * q + 3) % 4) * 64 + s(4 * q + 4)) % 256
Decode(t) == LET n == Significant(t) IN [k \in 1..((6 * n) \div 8) |-> DecByte(t, n, k)]
=============================================================================
