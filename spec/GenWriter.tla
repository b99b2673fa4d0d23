----------------------------- MODULE GenWriter -----------------------------
(* Enumerates writer histories for replay: every legal prefix up to MaxCalls calls
   followed by finish ("F") or by one illegal call; also checks the machine itself. *)
EXTENDS WriterMachine, TLC, Json
CONSTANT MaxCalls
VARIABLES s, hist, over

Calls == {<<"v", <<"n">>>>, <<"k", <<>>>>, <<"[">>, <<"{">>, <<"]">>, <<"}">>}
Sym(h) == [i \in 1..Len(h) |-> h[i][1]]
Emit(h) == PrintT("GEN " \o ToJson(Sym(h)))
(* keys and values are told apart by the position of the call *)
Stamp(c, n) == CASE c[1] = "k" -> <<"k", <<n>>>> [] c[1] = "v" -> <<"v", <<"u", <<n, 0, 0, 0, 0, 0, 0, 0>>>>>> [] OTHER -> c
(* what may follow a container begun where no value may go: its end, finish, a value, ... *)
Tails(c) == LET E == <<IF c[1] = "[" THEN "]" ELSE "}">>
                I == IF c[1] = "[" THEN << <<"v">> >> ELSE << <<"k">>, <<"v">> >>
            IN {<<E>>, << <<"F">> >>, I \o <<E>>, I \o << <<"F">> >>, << <<"[">>, <<"F">> >>, << <<"[">>, <<"]">>, <<"F">> >>,
                I \o I \o << <<"F">> >>}
Init == s = Start /\ hist = <<>> /\ over = FALSE
Call == /\ ~over /\ Len(hist) < MaxCalls
        /\ \E c0 \in Calls :
             LET c == Stamp(c0, Len(hist) + 1) IN
             /\ hist' = Append(hist, c)
             /\ IF Legal(s, c) THEN s' = Effect(s, c) /\ over' = FALSE
                ELSE /\ Emit(hist')
                     /\ IF IsBegin(c) THEN \A t \in Tails(c) : Emit(hist' \o t) ELSE TRUE
                     /\ over' = TRUE /\ s' = s
Finish == /\ ~over /\ hist' = Append(hist, <<"F">>) /\ over' = TRUE /\ s' = s /\ Emit(hist')
Next == Call \/ Finish
Spec == Init /\ [][Next]_<<s, hist, over>>

(* No value is lost: every stamped value and key is in the tree being built. *)
RECURSIVE Leaves(_)
Leaves(v) == CASE v[1] = "a" -> UNION {Leaves(v[2][i]) : i \in 1..Len(v[2])}
               [] v[1] = "m" -> UNION {Leaves(v[2][i][2]) \cup {v[2][i][1][1]} : i \in 1..Len(v[2])}
               [] v[1] = "u" -> {v[2][1]}
               [] OTHER -> {}
Held == (IF s.root = <<>> THEN {} ELSE Leaves(s.root[1]))
        \cup UNION {Leaves(<<s.st[i].k, s.st[i].items>>) \cup (IF s.st[i].key = <<>> THEN {} ELSE {s.st[i].key[1][1]}) : i \in 1..Len(s.st)}
NothingLost == ~over => Held = {i \in 1..Len(hist) : hist[i][1] \in {"v", "k"}}
NeverDoomed == \A i \in 1..Len(s.st) : ~s.st[i].doomed
=============================================================================
