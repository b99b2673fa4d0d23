---------------------------- MODULE GenLifetime ----------------------------
(* Enumerates histories of readers, their copies and parts for replay; checks that
   ownership in the machine is unique and that what is usable is backed by live bytes. *)
EXTENDS LifetimeMachine, TLC, Json
CONSTANTS Slots, MaxOps
VARIABLES st, hist
Init == st = NewState(Slots) /\ hist = <<>>
Free == {i \in 1..Slots : st.sl[i] = None /\ \A j \in 1..(i - 1) : st.sl[j] # None}
S == 1..Slots
Ops == {<<o, i, Len(hist) + 1>> : o \in {"own", "view"}, i \in Free}
       \cup {<<o, i, j>> : o \in {"cc", "mc"}, i \in Free, j \in S}
       \cup {<<o, i, j>> : o \in {"ca", "ma", "sw"}, i \in S, j \in S}
       \cup {<<"take", i, j, t, <<1>>>> : i \in Free, j \in S, t \in {"sub", "str"}}
       \cup {<<"del", i>> : i \in S} \cup {<<"free", t>> : t \in st.alive}
Used == Cardinality({i \in 1..Len(hist) : hist[i][1] \in {"own", "view"}})
Useful(c) == /\ Enabled(st, c)
             /\ (c[1] = "sw" => c[2] < c[3])
             /\ (c[1] \in {"own", "view"} => Used < 2)
             /\ (c[1] = "take" => st.sl[c[3]].ty = "root" \/ Len(st.sl[c[3]].path) < 2)
             /\ (c[1] = "ca" /\ c[2] = c[3] => st.sl[c[2]].own)
             /\ (c[1] = "sw" => st.sl[c[2]].tok # st.sl[c[3]].tok)
Do == /\ Len(hist) < MaxOps
      /\ \E c \in Ops : /\ Useful(c)
                        /\ st' = Effect(st, c) /\ hist' = Append(hist, c)
                        /\ (IF Len(hist') = MaxOps THEN PrintT("GEN " \o ToJson(hist')) ELSE TRUE)
Spec == Init /\ [][Do]_<<st, hist>>
OneOwner == \A i, j \in S : i # j => OwnTok(st.sl[i]) \cap OwnTok(st.sl[j]) = {}
OwnersUsable == \A i \in S : (st.sl[i] # None /\ st.sl[i].ty = "root" /\ st.sl[i].own) => Usable(st, i)
ToksKnown == st.alive \subseteq 1..(st.next - 1)
=============================================================================
