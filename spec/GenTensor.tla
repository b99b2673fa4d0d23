----------------------------- MODULE GenTensor -----------------------------
(* Enumerates messages around the dtype/shape/blob triple for replay: right and wrong
   dtypes, shapes whose size products wrap in 32 or 64 bits, blobs one byte off, missing,
   extra and wrongly typed parts. *)
EXTENDS Tensor, TLC, Json
CONSTANTS MaxRank
VARIABLES done
U(b) == <<"u", b>>
I(b) == <<"i", b>>
N(n) == U(Word(n))
P31 == U(<<0, 0, 0, 128, 0, 0, 0, 0>>)
M32 == U(<<255, 255, 255, 255, 0, 0, 0, 0>>)
P32 == U(<<0, 0, 0, 0, 1, 0, 0, 0>>)
P32p2 == U(<<2, 0, 0, 0, 1, 0, 0, 0>>)
P63 == U(<<0, 0, 0, 0, 0, 0, 0, 128>>)
P29 == U(<<0, 0, 0, 32, 0, 0, 0, 0>>)
K64 == N(65536)
Neg == I(Rep(255, 8))
D2 == {N(0), N(1), N(2), N(3), I(Word(2)), I(Word(3)), K64, P29, P31, M32, P32, P32p2, P63, Neg, <<"n">>, <<"d", <<0, 0, 0, 0, 0, 0, 0, 64>>>>, <<"s", <<50>>>>, <<"b", TRUE>>, <<"a", <<N(2)>>>>}
D3 == {N(0), N(2), K64, P31, M32, P32}
D4 == {N(0), N(1), K64, P31}
Shapes == {<<>>} \cup {<<a>> : a \in D2} \cup {<<a, b>> : a \in D2, b \in D2} \cup {<<a, b, c>> : a \in D3, b \in D3, c \in D3}
          \cup (IF MaxRank >= 4 THEN {<<a, b, c, d>> : a \in D4, b \in D4, c \in D4, d \in D4} ELSE {})
Blob(n) == <<"x", [i \in 1..n |-> (i * 37) % 256]>>
Fitting(s, c) == IF \A i \in 1..Len(s) : IsNat32(s[i]) THEN SatMul(Product(Dims(s), 1), SizeOf(c)) ELSE 0
Near(n) == {m \in {n - 1, n, n + 1} : m >= 0 /\ m <= 60}
BlobLens(s, c) == IF Len(s) <= 2 THEN Near(Fitting(s, c)) \cup {0, 2 * SizeOf(c), 6 * SizeOf(c)} ELSE Near(Fitting(s, c)) \cup {0}
Emit(v) == PrintT("GEN " \o ToJson(v))
Tri(c, s, b) == <<"a", << I(Word(c)), <<"a", s>>, b>> >>
Types == {0, 10, 11, 13}
Strange(c) ==
  LET s == <<"a", <<N(2), N(3)>>>>
      b == Blob(6 * SizeOf(c))
      d == I(Word(c))
  IN {<<"a", <<x, s, b>>>> : x \in {U(Word(c)), I(Word(c + 256)), I(<<c, 0, 0, 0, 1, 0, 0, 0>>), I(<<c, 0, 0, 0, 0, 0, 0, 128>>), U(<<c, 0, 0, 0, 0, 0, 0, 128>>), Neg, <<"n">>,
                                    <<"s", <<c>>>>, <<"d", <<0, 0, 0, 0, 0, 0, 36, 64>>>>, <<"b", TRUE>>, <<"a", <<d>>>>, I(Word(8)), I(Word(9)), I(Word(15))} \cup {I(Word(k)) : k \in Codes}}
     \cup {<<"a", <<d, x, b>>>> : x \in {N(6), <<"m", << <<<<48>>, N(2)>>, <<<<49>>, N(3)>> >>>>, <<"x", <<2, 3>>>>, <<"s", <<2, 3>>>>, <<"n">>}}
     \cup {<<"a", <<d, s, x>>>> : x \in {<<"s", b[2]>>, <<"a", [i \in 1..6 |-> N(i)]>>, <<"n">>, <<"m", <<>>>>}}
     \cup {<<"a", <<d, s>>>>, <<"a", <<d>>>>, <<"a", <<>>>>, <<"a", <<d, s, b, d>>>>, <<"a", <<d, s, b, b>>>>, <<"a", <<s, d, b>>>>, <<"a", <<d, b, s>>>>, <<"a", <<b, s, d>>>>, b, s, d, <<"n">>, <<"s", <<c>>>>,
           <<"m", << <<<<48>>, d>>, <<<<49>>, s>>, <<<<50>>, b>> >>>>,
           <<"m", << <<<<100, 116, 121, 112, 101>>, d>>, <<<<115, 104, 97, 112, 101>>, s>>, <<<<100, 97, 116, 97>>, b>> >>>>}
Init == /\ done = 0
        /\ \A c \in Types : /\ \A s \in Shapes : \A n \in BlobLens(s, c) : Emit(Tri(c, s, Blob(n)))
                            /\ \A v \in Strange(c) : Emit(v)
Next == done = 0 /\ done' = 1
Spec == Init /\ [][Next]_done
=============================================================================
