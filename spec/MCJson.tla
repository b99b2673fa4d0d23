------------------------------- MODULE MCJson -------------------------------
(* Checks of the JSON definition: parsing inverts every encoding of a value (with and
   without escapes and white space); the recursive definition and the byte machine accept
   the same texts, whatever bytes follow a prefix; a text cut short or changed in one byte
   is judged alike by both. *)
EXTENDS JsonFormat, JsonMachine, TLC
CONSTANTS Depth, Mode, MaxLen                         \* Mode: "values", "mutants", "bytes"
VARIABLES v, B, m, n

W(k) == <<k, 0, 0, 0, 0, 0, 0, 0>>
One5 == <<0, 0, 0, 0, 0, 0, 248, 63>>
NTab == <<<<<<49, 46, 53>>, One5>>, <<<<45, 49, 101, 45, 55>>, <<72, 175, 188, 154, 242, 215, 122, 190>>>>>>
Leaf == {<<"n">>, <<"b", TRUE>>, <<"b", FALSE>>, <<"u", W(0)>>, <<"u", W(7)>>, <<"u", W(200)>>, <<"i", Rep(255, 8)>>, <<"u", Rep(255, 8)>>,
         <<"i", Rep(0, 7) \o <<128>>>>, <<"u", <<0, 202, 154, 59, 0, 0, 0, 0>>>>, <<"d", NTab[1][2]>>, <<"d", NTab[2][2]>>,
         <<"s", <<>>>>, <<"s", <<97>>>>, <<"s", <<0, 34, 92, 47, 31, 127>>>>, <<"s", <<195, 169, 230, 151, 165, 240, 159, 152, 128, 244, 143, 191, 191>>>>,
         <<"s", BlobMark>>, <<"x", <<>>>>, <<"x", <<0, 255>>>>, <<"x", <<1, 2, 3, 4>>>>}
Few == {<<"n">>, <<"u", W(12)>>, <<"s", <<10>>>>, <<"x", <<9>>>>}
RECURSIVE Vals(_)
Vals(d) == IF d = 0 THEN Leaf
           ELSE LET S == Vals(d - 1) IN
                S \cup {<<"a", <<>>>>, <<"m", <<>>>>} \cup {<<"a", <<x>>>> : x \in S} \cup {<<"a", <<x, y>>>> : x \in S, y \in Few}
                  \cup {<<"m", <<<<<<107>>, x>>>>>> : x \in S} \cup {<<"m", <<<<<<>>, x>>, <<<<107>>, y>>, <<<<107>>, x>>>>>> : x \in S, y \in Few}
Prefixes == {<<>>, <<91>>, <<123>>, <<91, 49>>, <<91, 34>>, <<123, 34, 97, 34>>, <<123, 34, 34, 58, 49>>, <<45>>, <<48>>, <<49, 46>>, <<49, 101>>, <<34>>, <<34, 92>>,
             <<34, 92, 117, 48, 48>>, <<34, 92, 117, 100, 56, 51, 68, 92>>, <<34, 92, 117, 100, 56, 51, 100, 92, 117, 68, 67>>, <<34, 92, 117, 68, 67>>, <<34, 224>>, <<34, 237>>, <<34, 240>>, <<34, 244>>,
             <<91, 93>>, <<91, 116, 114, 117, 101>>, <<110, 117, 108>>, <<102, 97, 108, 115>>, <<91, 123, 125>>, <<123, 34, 107, 34, 58, 123, 125>>}
Alphabet == {9, 10, 31, 32, 34, 43, 44, 45, 46, 47, 48, 49, 58, 65, 68, 70, 71, 91, 92, 93, 97, 101, 102, 110, 117, 123, 125, 127, 128, 144, 160, 191, 193, 195, 255}
Interesting == {0, 10, 32, 34, 44, 45, 46, 48, 57, 58, 69, 91, 92, 93, 100, 117, 123, 125, 128, 192, 237, 255}

Init == /\ n = 0
        /\ IF Mode = "bytes" THEN v = <<"n">> /\ B \in Prefixes
           ELSE v \in Vals(Depth) /\ \E e, g \in BOOLEAN : B = EncJ(v, e, g, NTab)
        /\ m = MRun(MStart, B)
Take == /\ Mode = "bytes" /\ n < MaxLen /\ m # Dead /\ n' = n + 1 /\ v' = v
        /\ \E b \in Alphabet : B' = Append(B, b) /\ m' = MStep(m, b)
Corrupt == /\ Mode = "mutants" /\ n = 0 /\ n' = 1 /\ v' = v
           /\ \/ \E p \in 1..Len(B), x \in Interesting : B' = [B EXCEPT ![p] = x]
              \/ \E k \in 0..(Len(B) - 1) : B' = SubSeq(B, 1, k)
           /\ m' = MRun(MStart, B')
Next == Take \/ Corrupt
Spec == Init /\ [][Next]_<<v, B, m, n>>

Whole == n = 0 /\ Mode # "bytes"
RoundTrips == Whole => LET p == Parse(B, NTab) IN p # Fail /\ Same(v, p) /\ Holds(v) /\ AllBlobsReadable(p)
RECURSIVE Plain(_)                                    \* what is shown: integers by number
Plain(x) == CASE IsIntKind(x) -> <<"#", Num(x)>>
              [] x[1] = "a" -> <<"a", [i \in 1..Len(x[2]) |-> Plain(x[2][i])]>>
              [] x[1] = "m" -> <<"m", [i \in 1..Len(x[2]) |-> <<x[2][i][1], Plain(x[2][i][2])>>]>>
              [] OTHER -> x
BlobsBack == Whole => Plain(Logical(Parse(B, NTab))) = Plain(v)
Agree == MAccepts(m) <=> Parse(B, NTab) # Fail
Shape == Parse(B, NTab) # Fail => Parse(B, NTab)[1] \in {"n", "b", "i", "u", "d", "s", "a", "m"}
=============================================================================
