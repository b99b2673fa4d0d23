----------------------------- MODULE MCMsgPack -----------------------------
(* Design check of the MessagePack definition: for small values and every head size
   the decoder inverts the encoder and the reader operations agree with the value;
   after any truncation or single-byte change every operation stays inside the
   message and admits an outcome; and over all byte strings of bounded length. *)
EXTENDS MsgPackFormat, TLC
CONSTANTS Depth, Mode, MaxLen                       \* Mode: "values", "mutants", "bytes"
VARIABLES v, B, step

W(n) == <<n, 0, 0, 0, 0, 0, 0, 0>>
Neg(n) == <<256 - n, 255, 255, 255, 255, 255, 255, 255>>
Ints == {<<"u", W(0)>>, <<"i", W(127)>>, <<"u", W(128)>>, <<"u", W(255)>>, <<"u", <<255, 255, 0, 0, 0, 0, 0, 0>>>>,
         <<"i", Neg(1)>>, <<"i", Neg(32)>>, <<"i", Neg(33)>>, <<"i", Neg(128)>>,
         <<"u", Rep(255, 8)>>, <<"i", <<0, 0, 0, 0, 0, 0, 0, 128>>>>}
Leaf == Ints \cup {<<"n">>, <<"b", TRUE>>, <<"b", FALSE>>, <<"d", <<0, 0, 0, 0, 0, 0, 240, 63>>>>,
         <<"s", <<>>>>, <<"s", <<97, 98>>>>, <<"s", [i \in 1..32 |-> 96 + (i % 26)]>>, <<"x", <<>>>>, <<"x", <<0, 255>>>>}
Few == {<<"n">>, <<"u", W(128)>>, <<"s", <<97, 98>>>>, <<"x", <<0, 255>>>>}
RECURSIVE Vals(_)
Vals(d) == IF d = 0 THEN Leaf
           ELSE LET S == Vals(d - 1) IN
                S \cup {<<"a", <<>>>>, <<"m", <<>>>>} \cup {<<"a", <<x>>>> : x \in S} \cup {<<"a", <<x, y>>>> : x \in S, y \in Few}
                  \cup {<<"m", <<<<<<107>>, x>>>>>> : x \in S} \cup {<<"m", <<<<<<>>, x>>, <<<<107>>, y>>>>>> : x \in S, y \in Few}
                  \cup {<<"a", [i \in 1..16 |-> x]>> : x \in Few}

Strings(n) == UNION {[1..k -> Byte] : k \in 0..n}
Init == /\ step = 0
        /\ IF Mode = "bytes" THEN v = <<"n">> /\ B \in Strings(MaxLen)
           ELSE v \in Vals(Depth) /\ \E w \in 0..9 : B = EncM(v, w)
Interesting == {0, 1, 144, 146, 129, 161, 192, 193, 196, 198, 204, 207, 217, 219, 221, 223, 255}
Corrupt == /\ Mode = "mutants" /\ step = 0 /\ step' = 1 /\ v' = v
           /\ \/ \E p \in 1..Len(B) : \E x \in Interesting : B' = [B EXCEPT ![p] = x]
              \/ \E n \in 0..(Len(B) - 1) : B' = SubSeq(B, 1, n)
Next == Corrupt
Spec == Init /\ [][Next]_<<v, B, step>>

RECURSIVE Shows(_, _, _)
Shows(c, h, w) ==
  CASE IsIntKind(w) -> /\ AsSigned(c, h, 8) = (IF FitsSigned(Num(w), 8) THEN {Ok(w[2])} ELSE {Err})
                       /\ AsUnsigned(c, h, 8) = (IF FitsUnsigned(Num(w), 8) THEN {Ok(w[2])} ELSE {Err})
    [] w[1] = "b" -> AsBool(c, h) = {BoolOut(w[2])}
    [] w[1] = "s" -> AsStr(c, h) = {Ok(w[2])} /\ AsBlob(c, h) = {Err}
    [] w[1] = "x" -> AsBlob(c, h) = {Ok(w[2])} /\ AsStr(c, h) = {Err}
    [] w[1] = "a" -> /\ ArrSize(c, h) = {<<1, Len(w[2])>>} /\ Index(c, h, Len(w[2])) = {Err}
                     /\ \A i \in 1..Len(w[2]) : \E x \in Index(c, h, i - 1) : x # Err /\ Shows(c, x[2], w[2][i])
    [] w[1] = "m" -> /\ Keys(c, h) = {Ok([i \in 1..Len(w[2]) |-> w[2][i][1]])} /\ Contains(c, h, <<122>>) = {<<1, 0>>}
                     /\ \A i \in 1..Len(w[2]) : /\ Contains(c, h, w[2][i][1]) = {<<1, 1>>}
                                                /\ \E x \in Lookup(c, h, w[2][i][1]) : x # Err /\ Shows(c, x[2], w[2][i][2])
    [] OTHER -> TRUE
RoundTrips == (step = 0 /\ Mode # "bytes") => LET c == [B |-> B] IN Denotes(c, v) /\ Shows(c, RootOf(c), v)

Inside(h) == 0 <= h[1] /\ h[1] <= h[2] /\ h[2] <= Len(B)
Defined ==
  LET c == [B |-> B]
      r == RootOf(c)
      subs == {x[2] : x \in (Index(c, r, 0) \cup Index(c, r, 1) \cup Lookup(c, r, <<107>>)) \ {Err}}
  IN \A h \in {r} \cup subs :
       /\ Inside(h)
       /\ (h # r => Exact(c, h))                    \* a sub-value is exactly one complete element
       /\ AsBool(c, h) # {} /\ AsSigned(c, h, 1) # {} /\ AsUnsigned(c, h, 8) # {} /\ AsStr(c, h) # {} /\ AsBlob(c, h) # {}
       /\ ArrSize(c, h) # {} /\ Index(c, h, 3) # {} /\ Keys(c, h) # {} /\ Lookup(c, h, <<107>>) # {} /\ Contains(c, h, <<107>>) # {}
       /\ (Exact(c, h) /\ StringKeysOnly(c, h) => Decode(c, h)[1] \in {"n", "b", "i", "u", "d", "s", "x", "a", "m"})
=============================================================================
