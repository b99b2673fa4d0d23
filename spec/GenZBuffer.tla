----------------------------- MODULE GenZBuffer -----------------------------
(* Enumerates ownership histories for replay and checks that the machine releases each
   resource exactly once. *)
EXTENDS ZBufferMachine, TLC, Json
CONSTANTS Slots, MaxOps
VARIABLES sl, next, rel, hist
vars == <<sl, next, rel, hist>>
Init == sl = [i \in 1..Slots |-> None] /\ next = 1 /\ rel = <<>> /\ hist = <<>>
(* construction always uses the first free slot *)
Free == {i \in 1..Slots : sl[i] = None /\ \A j \in 1..(i - 1) : sl[j] # None}
Ops == {<<"make", i, next>> : i \in Free} \cup {<<"make", i, 0>> : i \in Free} \cup {<<"bad", i>> : i \in Free}
       \cup {<<"mc", i, j>> : i \in Free, j \in 1..Slots} \cup {<<"ma", i, j>> : i \in 1..Slots, j \in 1..Slots}
       \cup {<<"sw", i, j>> : i \in 1..Slots, j \in 1..Slots} \cup {<<"del", i>> : i \in 1..Slots}
Useful(c) == /\ Enabled(sl, c) /\ (c[1] = "sw" => c[2] < c[3])
             /\ (c[1] = "bad" => \A i \in 1..Len(hist) : hist[i][1] # "bad")
             /\ (c[1] = "make" /\ c[3] = 0 => \A i \in 1..Len(hist) : hist[i][1] = "make" => hist[i][3] # 0)
Do == /\ Len(hist) < MaxOps
      /\ \E c \in Ops : /\ Useful(c)
                        /\ sl' = Effect(sl, c) /\ rel' = rel \o Released(sl, c)
                        /\ next' = (IF c[1] = "make" /\ c[3] # 0 THEN next + 1 ELSE next)
                        /\ hist' = Append(hist, c)
                        /\ (IF Len(hist') = MaxOps THEN PrintT("GEN " \o ToJson(hist')) ELSE TRUE)
Spec == Init /\ [][Do]_vars
Owners(r) == {i \in 1..Slots : sl[i] = r}
Times(r) == Cardinality({i \in 1..Len(rel) : rel[i] = r})
OnceEach == \A r \in 1..(next - 1) : Cardinality(Owners(r)) + Times(r) = 1
=============================================================================
