------------------------------- MODULE MCFlex -------------------------------
(* Design check of the FlexBuffers definition: for small values, every slot width, typed
   or not, indirect or not, the decoder inverts the encoder; after any truncation or
   single-byte change deciding well-formedness stays inside the message and a message
   found well-formed has a meaning. *)
EXTENDS FlexFormat, TLC
CONSTANTS Depth, Mode                               \* Mode: "values", "mutants"
VARIABLES v, B, step

W(n) == <<n, 0, 0, 0, 0, 0, 0, 0>>
Leaf == {<<"n">>, <<"b", TRUE>>, <<"b", FALSE>>, <<"i", W(5)>>, <<"i", <<254, 255, 255, 255, 255, 255, 255, 255>>>>, <<"i", <<0, 0, 0, 0, 0, 0, 0, 128>>>>,
         <<"u", W(200)>>, <<"u", Rep(255, 8)>>, <<"d", <<0, 0, 0, 0, 0, 0, 240, 63>>>>, <<"d", <<154, 153, 153, 153, 153, 153, 185, 63>>>>,
         <<"s", <<>>>>, <<"s", <<97, 0, 98>>>>, <<"x", <<>>>>, <<"x", <<0, 255>>>>}
Few == {<<"n">>, <<"i", W(5)>>, <<"u", W(200)>>, <<"s", <<97, 98>>>>, <<"d", <<0, 0, 0, 0, 0, 0, 240, 63>>>>, <<"b", TRUE>>}
RECURSIVE Vals(_)
Vals(d) == IF d = 0 THEN Leaf
           ELSE LET S == Vals(d - 1) IN
                S \cup {<<"a", <<>>>>, <<"m", <<>>>>} \cup {<<"a", <<x>>>> : x \in S} \cup {<<"a", <<x, y>>>> : x \in S, y \in Few}
                  \cup {<<"a", [i \in 1..n |-> x]>> : x \in Few, n \in 3..5}
                  \cup {<<"m", <<<<<<107>>, x>>>>>> : x \in S} \cup {<<"m", <<<<<<107>>, x>>, <<<<>>, y>>>>>> : x \in S, y \in Few}
Init == /\ step = 0 /\ v \in Vals(Depth)
        /\ \E w \in Widths : FitsW(v, w) /\ \E typed, ind \in BOOLEAN : B = EncF(v, w, typed, ind)
Interesting == {0, 1, 2, 3, 4, 8, 9, 24, 26, 36, 40, 44, 64, 96, 100, 104, 144, 255}
Corrupt == /\ Mode = "mutants" /\ step = 0 /\ step' = 1 /\ v' = v
           /\ \/ \E p \in 1..Len(B) : \E x \in Interesting : B' = [B EXCEPT ![p] = x]
              \/ \E n \in 0..(Len(B) - 1) : B' = SubSeq(B, 1, n)
Next == Corrupt
Spec == Init /\ [][Next]_<<v, B, step>>
RoundTrips == step = 0 => Denotes([B |-> B], v)
Defined == LET c == [B |-> B] IN OneMessage(c) => Meaning(c)[1] \in {"n", "b", "i", "u", "d", "s", "x", "a", "m"}
=============================================================================
