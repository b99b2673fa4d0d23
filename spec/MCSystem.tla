------------------------------ MODULE MCSystem ------------------------------
(* The whole system at the level of bytes: a value is written with one protocol, its parts
   are taken out, and messages are translated from format to format. cv is the value meant.
   Whatever the order, and whichever encoding each writer chooses, the bytes are a message
   of their protocol that stands for cv, and the protocols agree about it. *)
EXTENDS Formats, TLC
CONSTANTS Depth, Hops
VARIABLES p, b, cv, n

W(x) == <<x, 0, 0, 0, 0, 0, 0, 0>>
Leaf == {<<"n">>, <<"b", TRUE>>, <<"b", FALSE>>, <<"i", W(5)>>, <<"i", Rep(255, 8)>>, <<"i", <<0, 0, 0, 0, 0, 0, 0, 128>>>>,
         <<"u", W(200)>>, <<"u", Rep(255, 8)>>, <<"d", <<0, 0, 0, 0, 0, 0, 240, 63>>>>, <<"d", <<1, 0, 0, 0, 0, 0, 248, 127>>>>,
         <<"s", <<>>>>, <<"s", <<97, 0, 98>>>>, <<"s", [i \in 1..13 |-> 96 + i]>>, <<"x", <<>>>>, <<"x", <<0, 255>>>>}
Few == {<<"n">>, <<"u", W(200)>>, <<"s", <<97>>>>, <<"x", <<1>>>>}
RECURSIVE Vals(_)
Vals(d) == IF d = 0 THEN Leaf
           ELSE LET S == Vals(d - 1) IN
                S \cup {<<"a", <<>>>>, <<"m", <<>>>>} \cup {<<"a", <<x>>>> : x \in S} \cup {<<"a", <<x, y>>>> : x \in S, y \in Few}
                  \cup {<<"m", <<<<<<107>>, x>>>>>> : x \in S} \cup {<<"m", <<<<<<107>>, x>>, <<<<>>, y>>>>>> : x \in S, y \in Few}
                  \cup {<<"m", <<<<<<0, 107>>, x>>>>>> : x \in Few}

RECURSIVE NulKeys(_)
NulKeys(v) == CASE v[1] = "a" -> \E i \in 1..Len(v[2]) : NulKeys(v[2][i])
                [] v[1] = "m" -> \E i \in 1..Len(v[2]) : (\E j \in 1..Len(v[2][i][1]) : v[2][i][1][j] = 0) \/ NulKeys(v[2][i][2])
                [] OTHER -> FALSE
Can(q, v) == Representable(q, 0, NulKeys(v))
(* Some of the encodings of v in q, including the smallest and the largest heads. *)
Encodings(q, v) ==
  CASE q = "Z" -> {ZF!Encode(v, 0), ZF!Encode(v, 12)}
    [] q = "M" -> {MF!EncM(v, 0), MF!EncM(v, 1), MF!EncM(v, 9)}
    [] q = "C" -> {CF!EncC(v, 0, FALSE), CF!EncC(v, 3, FALSE)}
    [] OTHER -> {FF!EncF(v, w, FALSE, FALSE) : w \in {x \in {1, 8} : FF!FitsW(v, x)}} \cup {FF!EncF(v, 8, TRUE, TRUE)}
Kids(v) == CASE v[1] = "a" -> {<<i>> : i \in 1..Len(v[2])}
             [] v[1] = "m" -> {<<v[2][i][1], 0>> : i \in 1..Len(v[2])}
             [] OTHER -> {}
Kid(v, k) == IF Len(k) = 1 THEN v[2][k[1]] ELSE v[2][CHOOSE i \in 1..Len(v[2]) : v[2][i][1] = k[1]][2]

Init == /\ cv \in Vals(Depth) /\ p \in {q \in AllProtocols : Can(q, cv)} /\ b \in Encodings(p, cv) /\ n = 0
(* Translation writes the meaning of the bytes, not cv. *)
Translate(q) == /\ Can(q, MeaningOf(p, b)) /\ p' = q /\ b' \in Encodings(q, MeaningOf(p, b)) /\ cv' = cv
Descend(k, q) == LET m == Kid(MeaningOf(p, b), k) IN
                 Can(q, m) /\ p' = q /\ b' \in Encodings(q, m) /\ cv' = Kid(cv, k)
Next == /\ n < Hops /\ n' = n + 1
        /\ \E q \in AllProtocols : Translate(q) \/ \E k \in Kids(cv) : Descend(k, q)
Spec == Init /\ [][Next]_<<p, b, cv, n>>

StandsForIt == IsMessage(p, b) /\ MF!SameNumbers(cv, MeaningOf(p, b))
(* What cannot be represented stays so: a value is refused by q at one hop exactly if it was at the start. *)
SameRefusals == \A q \in AllProtocols : Can(q, cv) = Can(q, MeaningOf(p, b))
=============================================================================
