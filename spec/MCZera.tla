------------------------------- MODULE MCZera -------------------------------
(* Design check of the Zera format: for every small value and inline limit the
   reference encoder's message is canonical, the decoder inverts it and the reader
   operations agree with the value; and every single-byte change of it either is
   rejected by the header rules or leaves each reader operation with a defined set
   of outcomes, never an access outside the message. *)
EXTENDS ZeraFormat, TLC
CONSTANTS Depth, Mutate
VARIABLES v, limit, B, pos

W(n) == <<n, 0, 0, 0, 0, 0, 0, 0>>
Neg1 == Rep(255, 8)
Top == <<0, 0, 0, 0, 0, 0, 0, 128>>
Scalars == {<<"n">>, <<"b", TRUE>>, <<"b", FALSE>>, <<"i", Neg1>>, <<"i", W(7)>>, <<"u", Top>>,
            <<"d", <<0, 0, 0, 0, 0, 0, 240, 63>>>>, <<"s", <<>>>>, <<"s", <<97>>>>,
            <<"s", [i \in 1..12 |-> 96 + i]>>, <<"s", [i \in 1..13 |-> 96 + i]>>,
            <<"x", <<>>>>, <<"x", <<1, 2, 3>>>>, <<"x", [i \in 1..17 |-> i]>>}
KeySeqs == {<<>>, <<107>>, <<107, 107>>}
RECURSIVE Vals(_)
Vals(d) == IF d = 0 THEN Scalars
           ELSE LET S == Vals(d - 1)
                    T == IF d = 1 THEN S ELSE {<<"s", <<97>>>>, <<"x", <<1, 2, 3>>>>}
                IN S \cup {<<"a", <<>>>>, <<"m", <<>>>>}
                     \cup {<<"a", <<x>>>> : x \in S} \cup {<<"a", <<x, y>>>> : x \in S, y \in T}
                     \cup {<<"m", <<<<a, x>>>>>> : a \in KeySeqs, x \in S}
                     \cup {<<"m", <<<<<<107>>, x>>, <<<<107, 107>>, y>>>>>> : x \in S, y \in T}

Init == v \in Vals(Depth) /\ limit \in {0, 1, 12} /\ B = Encode(v, limit) /\ pos = 0
Interesting == {0, 1, 2, 7, 16, 255}
Corrupt == /\ Mutate /\ pos = 0
           /\ \E p \in 1..Len(B) : \E x \in Interesting :
                /\ B[p] # x
                /\ B' = [B EXCEPT ![p] = x] /\ pos' = p
           /\ UNCHANGED <<v, limit>>
Truncate == /\ Mutate /\ pos = 0
            /\ \E n \in 0..(Len(B) - 1) : B' = SubSeq(B, 1, n) /\ pos' = 1
            /\ UNCHANGED <<v, limit>>
Next == Corrupt \/ Truncate
Spec == Init /\ [][Next]_<<v, limit, B, pos>>

RECURSIVE ReaderShows(_, _, _)
ReaderShows(c, h, w) ==
  /\ \A kk \in {"n", "b", "i", "u", "d", "s", "x", "a", "m"} : IsKind(c, h, kk) = {BoolOut(kk = w[1])}
  /\ CASE w[1] = "b" -> AsBool(c, h) = {BoolOut(w[2])}
       [] w[1] = "i" -> AsSigned(c, h, 8) = {Ok(w[2])} /\ AsUnsigned(c, h, 8) = (IF IsNegative(w[2]) THEN {Err} ELSE {Ok(w[2])})
       [] w[1] = "u" -> AsUnsigned(c, h, 8) = {Ok(w[2])}
       [] w[1] = "s" -> AsStr(c, h) = {Ok(w[2])}
       [] w[1] = "x" -> AsBlob(c, h) = {Ok(w[2])}
       [] w[1] = "a" -> /\ ArrSize(c, h) = {<<1, Len(w[2])>>}
                        /\ \A i \in 1..Len(w[2]) :
                             /\ Cardinality(Index(c, h, i - 1)) = 1 /\ Index(c, h, i - 1) # {Err}
                             /\ ReaderShows(c, (CHOOSE x \in Index(c, h, i - 1) : TRUE)[2], w[2][i])
                        /\ Index(c, h, Len(w[2])) = {Err}
       [] w[1] = "m" -> /\ Keys(c, h) = {Ok([i \in 1..Len(w[2]) |-> w[2][i][1]])}
                        /\ Contains(c, h, <<122, 122, 122>>) = {<<1, 0>>} /\ Lookup(c, h, <<122, 122, 122>>) = {Err}
                        /\ \A i \in 1..Len(w[2]) :
                             /\ Contains(c, h, w[2][i][1]) = {<<1, 1>>}
                             /\ ReaderShows(c, (CHOOSE x \in Lookup(c, h, w[2][i][1]) : TRUE)[2], w[2][i][2])
       [] OTHER -> TRUE
RoundTrips == pos = 0 => CanonicalMessage(B, v, limit) /\ ReaderShows(Ctx(B), HdrRoot(B), v)

(* Every operation on every in-envelope offset is defined (TLC would report an
   access outside the sequence) and admits at least one outcome. *)
Defined == HeaderOK(B) =>
  LET c == Ctx(B)
      hsx == {HdrRoot(B)} \cup {0, c.env - 16}
  IN \A h \in hsx :
       /\ \A kk \in {"n", "x", "m"} : IsKind(c, h, kk) # {}
       /\ AsBool(c, h) # {} /\ AsSigned(c, h, 8) # {} /\ AsUnsigned(c, h, 1) # {} /\ AsStr(c, h) # {}
       /\ AsBlob(c, h) # {} /\ ArrSize(c, h) # {} /\ Index(c, h, 0) # {} /\ Index(c, h, 5) # {}
       /\ Keys(c, h) # {} /\ Lookup(c, h, <<107>>) # {} /\ Contains(c, h, <<107>>) # {}
=============================================================================
