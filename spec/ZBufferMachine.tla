--------------------------- MODULE ZBufferMachine ---------------------------
(* Ownership of byte buffers. A slot holds no ZBuffer (-1), an empty one (0) or the
   one that owns resource r > 0. An operation is a tuple; Effect gives the slots after
   it and Released the resources whose deleter it runs. *)
EXTENDS Integers, Sequences, FiniteSets

None == -1
Empty == 0
Enabled(sl, c) ==
  CASE c[1] \in {"make", "bad"} -> sl[c[2]] = None
    [] c[1] = "mc" -> sl[c[2]] = None /\ sl[c[3]] # None
    [] c[1] \in {"ma", "sw"} -> c[2] # c[3] /\ sl[c[2]] # None /\ sl[c[3]] # None
    [] c[1] = "del" -> sl[c[2]] # None
    [] OTHER -> FALSE
Effect(sl, c) ==
  CASE c[1] = "make" -> [sl EXCEPT ![c[2]] = c[3]]
    [] c[1] = "bad" -> sl
    [] c[1] \in {"mc", "ma"} -> [sl EXCEPT ![c[2]] = sl[c[3]], ![c[3]] = Empty]
    [] c[1] = "sw" -> [sl EXCEPT ![c[2]] = sl[c[3]], ![c[3]] = sl[c[2]]]
    [] c[1] = "del" -> [sl EXCEPT ![c[2]] = None]
Released(sl, c) == IF c[1] \in {"ma", "del"} /\ sl[c[2]] > 0 THEN <<sl[c[2]]>> ELSE <<>>

--------------------------------------------------------------------------
(* hexdump(w): rows of w bytes: offset, hex, text. Characters are ASCII codes. *)
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex2(b) == <<HexDigit(b \div 16), HexDigit(b % 16)>>
RECURSIVE HexN(_, _)
HexN(v, n) == IF n = 0 THEN <<>> ELSE Append(HexN(v \div 16, n - 1), HexDigit(v % 16))
RECURSIVE Cat(_, _, _)
Cat(F(_), i, n) == IF i > n THEN <<>> ELSE F(i) \o Cat(F, i + 1, n)
RowText(p, label, w) ==                 \* the row of the bytes p that starts at offset label
  LET cell(j) == (IF j <= Len(p) THEN Hex2(p[j]) ELSE <<32, 32>>) \o <<32>> \o (IF j = 8 THEN <<32>> ELSE <<>>)
      chr(j) == IF j <= Len(p) THEN <<IF p[j] \in 32..126 THEN p[j] ELSE 46>> ELSE <<>>
  IN HexN(label, 8) \o <<32, 32>> \o Cat(cell, 1, w) \o <<32, 124>> \o Cat(chr, 1, w) \o <<124, 10>>
Row(b, at, w) == RowText(SubSeq(b, at + 1, IF at + w > Len(b) THEN Len(b) ELSE at + w), at, w)
Hexdump(b, w0) ==
  LET w == IF w0 = 0 THEN 16 ELSE w0
      row(i) == Row(b, (i - 1) * w, w)
  IN IF b = <<>> THEN <<40, 101, 109, 112, 116, 121, 41, 10>>       \* "(empty)\n"
     ELSE Cat(row, 1, (Len(b) + w - 1) \div w)
(* A dump too long to list: its number of rows, and some of them <<offset, bytes, text>>. *)
RowsOK(n, w, lines, rows) ==
  /\ lines = (n + w - 1) \div w
  /\ Len(rows) > 0
  /\ \A i \in 1..Len(rows) : LET x == rows[i] IN
       /\ Len(x[2]) = (IF x[1] + w > n THEN n - x[1] ELSE w)
       /\ x[3] = RowText(x[2], x[1], w)
=============================================================================
