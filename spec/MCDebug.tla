------------------------------ MODULE MCDebug ------------------------------
(* The debug text is unambiguous: the text of one value describes another only if they
   differ in nothing but the contents of blobs (MsgPack, Flex), map order, or, in MsgPack,
   the signedness of a number. *)
EXTENDS DebugText, TLC
CONSTANT MaxLen
VARIABLES v, w
Strings == {<<>>, <<34>>, <<92>>, <<34, 58>>, <<44>>}
I(n) == <<"i", IF n < 0 THEN [k \in 1..8 |-> IF k = 1 THEN 256 + n ELSE 255] ELSE NatLE(n, 8)>>
Scalars == {<<"n">>, <<"b", TRUE>>, <<"b", FALSE>>, I(-1), I(0), I(10), <<"u", NatLE(1, 8)>>, <<"u", Rep(255, 8)>>,
            <<"d", <<0, 0, 0, 0, 0, 0, 240, 63>>>>, <<"d", Rep(0, 8)>>, <<"x", <<>>>>, <<"x", <<7>>>>, <<"x", <<8>>>>}
           \cup {<<"s", s>> : s \in Strings}
Seqs(S) == UNION {[1..n -> S] : n \in 0..MaxLen}
MapsOf(S) == {<<"m", es>> : es \in {q \in Seqs(Strings \X S) : Cardinality({q[i][1] : i \in 1..Len(q)}) = Len(q)}}
Small == {<<"n">>, <<"s", <<34>>>>, I(0)}
Vals == Scalars \cup {<<"a", q>> : q \in Seqs(Scalars)} \cup MapsOf(Small) \cup {<<"a", q>> : q \in Seqs({<<"a", <<>>>>, <<"m", <<>>>>, <<"a", <<I(0)>>>>, I(0)})}

RECURSIVE Text(_, _), Join(_)
Join(ts) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o <<44>> \o Join(Tail(ts))
Text(p, x) ==
  CASE x[1] = "n" -> Words.n \o Sep(p) \o Words.n
    [] x[1] = "b" -> Words.b \o Sep(p) \o Truth(x[2])
    [] IsIntKind(x) -> Words[x[1]] \o Sep(p) \o DecInt(Num(x))
    [] x[1] = "d" -> Words.d \o Sep(p) \o ExactText(x[2])
    [] x[1] = "s" -> Words.s \o Sep(p) \o Quoted(x[2])
    [] x[1] = "x" -> Blob(p) \o <<91, 115, 105, 122, 101, 61>> \o Dec(Len(x[2])) \o <<93>>
    [] x[1] = "a" -> Words.a \o <<91>> \o Join([k \in 1..Len(x[2]) |-> Text(p, x[2][k])]) \o <<93>>
    [] OTHER -> Words.m \o <<123>> \o Join([k \in 1..Len(x[2]) |-> Quoted(x[2][k][1]) \o <<58>> \o Text(p, x[2][k][2])]) \o <<125>>
Whole(p, x) == IF p = "F" THEN FlexName \o Text(p, x) ELSE Text(p, x)
RECURSIVE Norm(_, _)
Norm(p, x) == CASE x[1] = "x" -> <<"x", Len(x[2])>>
                [] IsIntKind(x) /\ p = "M" -> <<"i", Num(x)>>
                [] x[1] = "a" -> <<"a", [k \in 1..Len(x[2]) |-> Norm(p, x[2][k])]>>
                [] x[1] = "m" -> <<"m", {<<x[2][k][1], Norm(p, x[2][k][2])>> : k \in 1..Len(x[2])}>>
                [] OTHER -> x
Init == v \in Vals /\ w = <<"n">>
Next == w' \in Vals /\ UNCHANGED v /\ w = <<"n">>
Unambiguous == \A p \in {"M", "F"} :
  /\ Describes(p, v, Whole(p, v))
  /\ (Describes(p, w, Whole(p, v)) <=> Norm(p, v) = Norm(p, w))
=============================================================================
