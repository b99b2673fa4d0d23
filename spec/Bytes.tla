------------------------------- MODULE Bytes -------------------------------
(* Byte-level arithmetic. Machine words are sequences of bytes, least
   significant first, because TLC integers are 32 bits wide. *)
EXTENDS Integers, Sequences

Byte == 0..255
Pow2(n) == 2^n

Rep(b, n) == [i \in 1..n |-> b]
Slice(s, from, len) == SubSeq(s, from, from + len - 1)      \* 1-based
Reverse8(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

IsNegative(b) == b[8] >= 128                      \* as a signed 64-bit word

(* A mathematical integer is <<negative?, 64-bit two's complement word>>. *)
SignedNum(b)   == <<IsNegative(b), b>>
UnsignedNum(b) == <<FALSE, b>>

(* Does the w-byte signed (unsigned) type hold the number n ? *)
FitsSigned(n, w) ==
  LET b == n[2]
      s == IF n[1] THEN 255 ELSE 0
  IN /\ \A i \in (w + 1)..8 : b[i] = s
     /\ (b[w] >= 128) = n[1]
FitsUnsigned(n, w) == ~n[1] /\ \A i \in (w + 1)..8 : n[2][i] = 0

SignExtend(b) ==                                   \* to 8 bytes
  LET s == IF b[Len(b)] >= 128 THEN 255 ELSE 0
  IN [i \in 1..8 |-> IF i <= Len(b) THEN b[i] ELSE s]
ZeroExtend(b) == [i \in 1..8 |-> IF i <= Len(b) THEN b[i] ELSE 0]

(* Small naturals (below 2^29) to and from words. *)
Big == 536870912                                   \* stands for any value >= 2^29
RECURSIVE NatLE(_, _)
NatLE(n, w) == IF w = 0 THEN <<>> ELSE <<n % 256>> \o NatLE(n \div 256, w - 1)
U16(b) == b[1] + 256 * b[2]
U32(b) == IF b[4] >= 32 THEN Big ELSE b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
U64(b) == IF \E i \in 5..8 : b[i] # 0 THEN Big ELSE U32(b)

--------------------------------------------------------------------------
(* IEEE 754 binary64 -> binary32, round to nearest, ties to even. *)
F64Sign(b) == b[8] \div 128
F64Exp(b)  == (b[8] % 128) * 16 + b[7] \div 16
F64Hi23(b) == (b[7] % 16) * 524288 + b[6] * 2048 + b[5] * 8 + b[4] \div 32
F64Lo29(b) == (b[4] % 32) * 16777216 + b[3] * 65536 + b[2] * 256 + b[1]
IsNaN64(b) == F64Exp(b) = 2047 /\ (F64Hi23(b) # 0 \/ F64Lo29(b) # 0)
SameF64(x, y) == x = y \/ (IsNaN64(x) /\ IsNaN64(y))

F32Bytes(sign, e, m) == <<m % 256, (m \div 256) % 256, ((m \div 65536) % 128) + (e % 2) * 128,
                          sign * 128 + e \div 2>>
F32Exp(b) == (b[4] % 128) * 2 + b[3] \div 128
F32Man(b) == b[1] + 256 * b[2] + 65536 * (b[3] % 128)
F32Sign(b) == b[4] \div 128
IsNaN32(b) == F32Exp(b) = 255 /\ F32Man(b) # 0
SameF32(x, y) == x = y \/ (IsNaN32(x) /\ IsNaN32(y))

F64toF32(b) ==
  LET s == F64Sign(b)
      e == F64Exp(b) - 1023
      hi == F64Hi23(b)
      lo == F64Lo29(b)
  IN IF F64Exp(b) = 2047
     THEN IF IsNaN64(b) THEN F32Bytes(s, 255, 4194304) ELSE F32Bytes(s, 255, 0)
     ELSE IF e > 127 THEN F32Bytes(s, 255, 0)
     ELSE IF e >= -126
     THEN LET up == IF lo > 268435456 \/ (lo = 268435456 /\ hi % 2 = 1) THEN 1 ELSE 0
              m == hi + up
          IN IF m = 8388608 THEN F32Bytes(s, e + 128, 0)   \* may become infinity (255)
             ELSE F32Bytes(s, e + 127, m)
     ELSE LET sig == 8388608 + hi
              sh == (-126) - e
          IN IF sh > 25 THEN F32Bytes(s, 0, 0)
             ELSE LET q == sig \div Pow2(sh)
                      r == sig % Pow2(sh)
                      half == Pow2(sh - 1)
                      up == IF r > half \/ (r = half /\ (lo > 0 \/ q % 2 = 1)) THEN 1 ELSE 0
                      m == q + up
                  IN IF m = 8388608 THEN F32Bytes(s, 1, 0) ELSE F32Bytes(s, 0, m)

(* binary32 -> binary64 (exact). *)
RECURSIVE NormShift(_)
NormShift(m) == IF m >= 8388608 THEN 0 ELSE 1 + NormShift(2 * m)
F64Bytes(s, e, hi23) ==                            \* the low 29 mantissa bits are zero
  <<0, 0, 0, (hi23 % 8) * 32, (hi23 \div 8) % 256, (hi23 \div 2048) % 256,
    (e % 16) * 16 + hi23 \div 524288, s * 128 + e \div 16>>
F32toF64(b) ==
  LET e == F32Exp(b)
      m == F32Man(b)
      s == F32Sign(b)
  IN IF e = 255 THEN F64Bytes(s, 2047, m)
     ELSE IF e > 0 THEN F64Bytes(s, e + 896, m)
     ELSE IF m = 0 THEN F64Bytes(s, 0, 0)
     ELSE LET k == NormShift(m) IN F64Bytes(s, 897 - k, m * Pow2(k) - 8388608)
=============================================================================
