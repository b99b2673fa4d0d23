------------------------------ MODULE TraceC12 ------------------------------
(* Where what a non-owning reader gives lies. The buffer starts at an address that is base
   modulo 16; offsets are relative to it, -1 outside it.
   strings: v the value, bytes the message, views the <<kind, offset, content>> of every
     string ("s"), blob ("x") and map key ("k") in the order of v.
   tensor: off/bmod the blob's offset and address modulo 16; zc, reason, req, addr, amod, size
     the view's own account; places <<offset, address modulo alignment, content>> of the
     elements in the view, in a moved copy of it and, if it is no zero-copy view, again after
     the buffer is gone. *)
EXTENDS Tensor, TraceBase
VARIABLE l

RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1]
            ELSE LET m == Len(ss) \div 2 IN Join(SubSeq(ss, 1, m)) \o Join(SubSeq(ss, m + 1, Len(ss)))
RECURSIVE Pieces(_)
Pieces(v) ==
  CASE v[1] \in {"s", "x"} -> << <<v[1], v[2]>> >>
    [] v[1] = "a" -> Join([i \in 1..Len(v[2]) |-> Pieces(v[2][i])])
    [] v[1] = "m" -> Join([i \in 1..Len(v[2]) |-> << <<"k", v[2][i][1]>> >> \o Pieces(v[2][i][2])])
    [] OTHER -> <<>>
InPlace(B, w) == /\ w[2] >= 0
                 /\ w[2] + Len(w[3]) <= Len(B)
                 /\ SubSeq(B, w[2] + 1, w[2] + Len(w[3])) = w[3]
StringsOK(r) ==
  LET want == Pieces(r.v) IN
  /\ Len(want) = Len(r.views)
  /\ \A i \in 1..Len(want) :
       LET w == r.views[i] IN
       /\ w[1] = want[i][1] /\ w[3] = want[i][2]
       /\ (w[3] # <<>> => InPlace(r.bytes, w))       \* an empty piece occupies nothing

TensorOK(r) ==
  LET a == AlignOf(r.code)
      empty == r.data = <<>>
      zc == IF empty THEN r.bmod % a = 0 ELSE ZeroCopy(r.base, r.off, r.code)
  IN /\ empty \/ (r.off >= 0 /\ (r.base + r.off) % 16 = r.bmod)
     /\ r.zc = zc
     /\ r.reason = (IF zc THEN "ok" ELSE "misaligned")
     /\ r.req = a /\ r.size = Len(r.data)
     /\ r.addr = r.off /\ r.amod = r.bmod
     /\ Len(r.places) = (IF zc THEN 2 ELSE 3)
     /\ \A i \in 1..Len(r.places) :
          LET w == r.places[i] IN
          /\ w[3] = r.data
          /\ (~empty => w[1] = IF zc THEN r.off ELSE -1)
          /\ (~empty => w[2] = 0)
     /\ (r.p = "Z" /\ r.base = 0) => zc
LineOK(r) == IF r.what = "strings" THEN ("skip" \in DOMAIN r \/ StringsOK(r)) ELSE TensorOK(r)
Init == l \in 1..Lanes
Step == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
           IF Crashed(r) THEN Reject(r, "crash") ELSE IF LineOK(r) THEN TRUE ELSE Reject(r, r.what)
        /\ l' = l + Lanes
Next == Step \/ (l > Len(Trace) /\ UNCHANGED l)
Spec == Init /\ [][Next]_l
=============================================================================
