----------------------------- MODULE MCBase64 -----------------------------
(* The codec as a machine with a rolling bit buffer (the way it is computed) against
   the definition by quanta, over all inputs up to MaxLen bytes of a small set. *)
EXTENDS Base64, FiniteSets
CONSTANTS MaxLen, Bytes
VARIABLES inp, buf, bits, out, phase, dec
vars == <<inp, buf, bits, out, phase, dec>>
Init == inp = <<>> /\ buf = 0 /\ bits = 0 /\ out = <<>> /\ phase = "enc" /\ dec = <<>>
RECURSIVE Emit(_, _, _)
Emit(v, n, o) == IF n < 6 THEN <<v, n, o>>
                 ELSE Emit(v % (2 ^ (n - 6)), n - 6, Append(o, Char(v \div (2 ^ (n - 6)))))
Push == /\ phase = "enc" /\ Len(inp) < MaxLen
        /\ \E b \in Bytes :
             LET e == Emit(buf * 256 + b, bits + 8, out) IN
             /\ inp' = Append(inp, b) /\ buf' = e[1] /\ bits' = e[2] /\ out' = e[3]
        /\ UNCHANGED <<phase, dec>>
RECURSIVE PadTo4(_)
PadTo4(o) == IF Len(o) % 4 = 0 THEN o ELSE PadTo4(Append(o, Pad))
Flush == /\ phase = "enc"
         /\ out' = PadTo4(IF bits = 0 THEN out ELSE Append(out, Char(buf * (2 ^ (6 - bits)))))
         /\ phase' = "dec" /\ buf' = 0 /\ bits' = 0 /\ UNCHANGED <<inp, dec>>
Pos == (Len(dec) * 8 + bits) \div 6 + 1
Pull == /\ phase = "dec" /\ Pos <= Len(out) /\ out[Pos] # Pad
        /\ LET v == buf * 64 + Sextet(out[Pos])
               n == bits + 6
           IN IF n >= 8 THEN dec' = Append(dec, v \div (2 ^ (n - 8))) /\ buf' = v % (2 ^ (n - 8)) /\ bits' = n - 8
              ELSE dec' = dec /\ buf' = v /\ bits' = n
        /\ UNCHANGED <<inp, out, phase>>
Done == /\ phase = "dec" /\ (IF Pos > Len(out) THEN TRUE ELSE out[Pos] = Pad) /\ phase' = "done"
        /\ UNCHANGED <<inp, buf, bits, out, dec>>
Next == Push \/ Flush \/ Pull \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Flush) /\ WF_vars(Pull) /\ WF_vars(Done)
TypeOK == bits \in 0..7 /\ buf < 2 ^ bits
Encoded == phase = "dec" => out = Encode(inp)
RoundTrip == phase = "done" => dec = inp /\ Decode(out) = inp /\ Readable(out) /\ buf = 0
Exact == phase = "done" => Len(out) = EncodedLen(Len(inp)) /\ \A i \in 1..Len(out) : IsAlpha(out[i]) \/ (out[i] = Pad /\ i > Len(out) - 2)
Ends == <>(phase = "done")
=============================================================================
