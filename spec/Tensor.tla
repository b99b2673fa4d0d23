------------------------------- MODULE Tensor -------------------------------
(* Tensors as messages: the array <<dtype code, shape, blob>>, where the blob holds the
   elements in storage order ("row" or, for Eigen's default, "col"). *)
EXTENDS Values

Cap == 1048576                                    \* products saturate here
SatMul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > Cap \div b THEN Cap ELSE a * b
RECURSIVE Product(_, _)
Product(s, i) == IF i > Len(s) THEN 1 ELSE SatMul(s[i], Product(s, i + 1))
(* numpy's codes and element sizes *)
Codes == {0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14}
SizeOf(c) == CASE c \in {0, 4} -> 1 [] c \in {1, 5, 14} -> 2 [] c \in {2, 6, 10} -> 4
               [] c \in {3, 7, 11, 12} -> 8 [] c = 13 -> 16
AlignOf(c) == CASE c = 12 -> 4 [] c = 13 -> 8 [] OTHER -> SizeOf(c)

IsNat32(v) == IsIntKind(v) /\ FitsUnsigned(Num(v), 4)
Dim(v) == U32(v[2])                               \* saturates at Big
Dims(s) == [i \in 1..Len(s) |-> Dim(s[i])]

(* Could v be read as a tensor of dtype c with that rank (-1: any) and these fixed rows
   and columns (-1: any)? Must it be? Extra elements after the triple, an unsigned dtype
   and a zero-sized shape whose other dimensions overflow may be refused or not. *)
May(v, c, rank, rows, cols) ==
  /\ v[1] = "a" /\ Len(v[2]) >= 3
  /\ IsIntKind(v[2][1]) /\ Num(v[2][1]) = <<FALSE, ZeroExtend(<<c>>)>>
  /\ v[2][2][1] = "a" /\ v[2][3][1] = "x"
  /\ LET s == v[2][2][2] IN
     /\ \A i \in 1..Len(s) : IsNat32(s[i])
     /\ rank # -1 => Len(s) = rank
     /\ rows # -1 => Dim(s[1]) = rows
     /\ cols # -1 => Dim(s[2]) = cols
     /\ Len(v[2][3][2]) = SatMul(Product(Dims(s), 1), SizeOf(c))
Must(v, c, rank, rows, cols) ==
  /\ May(v, c, rank, rows, cols) /\ Len(v[2]) = 3 /\ v[2][1][1] = "i"
  /\ LET s == Dims(v[2][2][2]) IN
     Product(s, 1) # 0 \/ Product([i \in 1..Len(s) |-> IF s[i] = 0 THEN 1 ELSE s[i]], 1) < Cap

(* A tensor given as a map: its entries under three keys, in any order and among others. *)
DTypeKey == <<100, 116, 121, 112, 101>>
ShapeKey == <<115, 104, 97, 112, 101>>
DataKey == <<100, 97, 116, 97>>
HasKey(v, k) == \E i \in 1..Len(v[2]) : v[2][i][1] = k
At(v, k) == v[2][CHOOSE i \in 1..Len(v[2]) : v[2][i][1] = k /\ \A j \in 1..(i - 1) : v[2][j][1] # k][2]
Triple(v) == IF v[1] = "m" /\ HasKey(v, DTypeKey) /\ HasKey(v, ShapeKey) /\ HasKey(v, DataKey)
             THEN <<"a", <<At(v, DTypeKey), At(v, ShapeKey), At(v, DataKey)>>>> ELSE <<"n">>

(* Bytes in row-major index order <-> storage order. A column-major blob of an r x q
   matrix holds element (i, j) at place j * r + i. *)
FromStorage(order, shape, size, blob) ==
  IF order = "row" \/ blob = <<>> THEN blob
  ELSE LET r == shape[1]
           q == shape[2]
       IN [k \in 1..Len(blob) |->
             LET e == (k - 1) \div size
             IN blob[((e % q) * r + e \div q) * size + ((k - 1) % size) + 1]]
ToStorage(order, shape, size, data) ==
  IF order = "row" \/ data = <<>> THEN data
  ELSE LET r == shape[1]
           q == shape[2]
       IN [k \in 1..Len(data) |->
             LET e == (k - 1) \div size
             IN data[((e % r) * q + e \div r) * size + ((k - 1) % size) + 1]]
Word(n) == NatLE(n, 8)
Wire(c, shape, order, data) ==
  <<"a", << <<"i", Word(c)>>, <<"a", [i \in 1..Len(shape) |-> <<"u", Word(shape[i])>>]>>,
            <<"x", ToStorage(order, shape, SizeOf(c), data)>> >> >>

(* What the view says about itself: the blob lies at offset off of a buffer whose start is
   base modulo 16. *)
ZeroCopy(base, off, c) == (base + off) % AlignOf(c) = 0
=============================================================================
