------------------------------ MODULE MCTensor ------------------------------
(* Design check: for every small tensor the storage order is a permutation that reading
   inverts, the wire form is one that must be accepted with exactly its own dtype, rank and
   size and by no other; the saturating product never wraps onto a small size. *)
EXTENDS Tensor, TLC
CONSTANTS MaxRank, MaxDim
VARIABLES shape, c, order, cut
RECURSIVE Prod(_, _)
Prod(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * Prod(s, i + 1)
Shapes == UNION {[1..r -> 0..MaxDim] : r \in 0..MaxRank}
Data == [k \in 1..(Prod(shape, 1) * SizeOf(c)) |-> k % 256]
Init == shape \in Shapes /\ c \in Codes /\ order \in {"row", "col"} /\ (order = "col" => Len(shape) = 2) /\ cut = 0
Next == cut = 0 /\ cut' \in 1..4 /\ UNCHANGED <<shape, c, order>>
Spec == Init /\ [][Next]_<<shape, c, order, cut>>
Good == Wire(c, shape, order, Data)
Bad == CASE cut = 1 -> [Good EXCEPT ![2][3][2] = Append(@, 0)]
         [] cut = 2 -> [Good EXCEPT ![2][2][2] = Append(@, <<"u", Word(2)>>)]
         [] cut = 3 -> [Good EXCEPT ![2][1] = <<"i", Word((c + 1) % 15)>>]
         [] OTHER -> [Good EXCEPT ![2] = SubSeq(@, 1, 2)]
Inverse == cut = 0 => LET s == SizeOf(c) IN
  FromStorage(order, shape, s, ToStorage(order, shape, s, Data)) = Data
  /\ ToStorage(order, shape, s, FromStorage(order, shape, s, Data)) = Data
Accepted == cut = 0 => /\ Must(Good, c, -1, -1, -1) /\ Must(Good, c, Len(shape), -1, -1)
                       /\ \A d \in Codes \ {c} : ~May(Good, d, -1, -1, -1)
                       /\ \A r \in 0..(MaxRank + 1) : r # Len(shape) => ~May(Good, c, r, -1, -1)
Refused == cut > 0 => \/ ~May(Bad, c, -1, -1, -1)
                      \/ (cut = 2 /\ Len(Data) = 0)
(* The same parts as a map, in every order and with an entry of another name anywhere. *)
AsMap(o, at) == LET e == <<<<DTypeKey, Good[2][1]>>, <<ShapeKey, Good[2][2]>>, <<DataKey, Good[2][3]>>>>
                    m == <<e[o[1]], e[o[2]], e[o[3]]>>
                IN <<"m", SubSeq(m, 1, at) \o <<<<<<>>, <<"n">>>>>> \o SubSeq(m, at + 1, 3)>>
MapForm == cut = 0 => \A o \in {q \in [1..3 -> 1..3] : \A i, j \in 1..3 : q[i] = q[j] => i = j} : \A at \in 0..3 :
             Triple(AsMap(o, at)) = Good /\ Triple(<<"m", SubSeq(AsMap(o, 0)[2], 1, 3)>>)[1] = "n"
Exact == Product(shape, 1) = Prod(shape, 1)
NoWrap == LET big == <<65536, 65536, 65536, 65536>> IN Product(big, 1) = Cap /\ SatMul(Product(<<Big, Big>>, 1), 4) = Cap
=============================================================================
