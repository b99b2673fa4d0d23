-------------------------- MODULE LifetimeMachine --------------------------
(* Which reader objects may be used when. Bytes live under a token: a reader built from
   a vector brings (and owns) a token of its own, a copy of it brings a fresh one, a move
   hands the token on, destroying or overwriting the owner ends it. A reader over a span
   uses the token of the caller's bytes, which ends when the caller frees them. Parts
   (sub-values, key ranges, strings and blobs) use the token of what they were taken from.
   Object: [ty |-> "none"] or
           [ty |-> "root" | "sub" | "keys" | "str" | "blob", own |-> TRUE if it owns tok,
            tok |-> token, 0 after being moved from, msg, path |-> what it shows]. *)
EXTENDS Integers, Sequences, FiniteSets

None == [ty |-> "none"]
Gone(o) == [ty |-> o.ty, own |-> FALSE, tok |-> 0, msg |-> 0, path |-> <<>>]
Usable(st, i) == st.sl[i].ty # "none" /\ st.sl[i].tok \in st.alive
Copyable(o) == o.ty \in {"root", "sub"}
NewState(n) == [sl |-> [i \in 1..n |-> None], alive |-> {}, next |-> 1]
OwnTok(o) == IF o.ty # "none" /\ o.own THEN {o.tok} ELSE {}

Enabled(st, c) ==
  CASE c[1] \in {"own", "view"} -> st.sl[c[2]] = None
    [] c[1] \in {"cc", "mc"} -> st.sl[c[2]] = None /\ Usable(st, c[3]) /\ Copyable(st.sl[c[3]])
    [] c[1] = "ca" -> Usable(st, c[3]) /\ Copyable(st.sl[c[3]]) /\ st.sl[c[2]].ty = st.sl[c[3]].ty
    [] c[1] = "ma" -> c[2] # c[3] /\ Usable(st, c[3]) /\ Copyable(st.sl[c[3]]) /\ st.sl[c[2]].ty = st.sl[c[3]].ty
    [] c[1] = "sw" -> c[2] # c[3] /\ Usable(st, c[2]) /\ Usable(st, c[3]) /\ Copyable(st.sl[c[3]]) /\ st.sl[c[2]].ty = st.sl[c[3]].ty
    [] c[1] = "take" -> st.sl[c[2]] = None /\ Usable(st, c[3]) /\ Copyable(st.sl[c[3]])
    [] c[1] = "del" -> st.sl[c[2]] # None
    [] c[1] = "free" -> c[2] \in st.alive /\ \A i \in DOMAIN st.sl : OwnTok(st.sl[i]) # {c[2]}
    [] OTHER -> FALSE

(* the copy of object o: a fresh token if o owns one *)
CopyOf(st, o) == IF o.own THEN [o EXCEPT !.tok = st.next] ELSE o
WithCopy(st, d, o) ==
  [sl |-> [st.sl EXCEPT ![d] = CopyOf(st, o)],
   alive |-> (st.alive \ OwnTok(st.sl[d])) \cup (IF o.own THEN {st.next} ELSE {}),
   next |-> IF o.own THEN st.next + 1 ELSE st.next]
WithMove(st, d, s) ==
  [st EXCEPT !.sl[d] = st.sl[s], !.sl[s] = Gone(st.sl[s]), !.alive = @ \ OwnTok(st.sl[d])]

Effect(st, c) ==
  CASE c[1] \in {"own", "view"} ->
         [sl |-> [st.sl EXCEPT ![c[2]] = [ty |-> "root", own |-> c[1] = "own", tok |-> st.next, msg |-> c[3], path |-> <<>>]],
          alive |-> st.alive \cup {st.next}, next |-> st.next + 1]
    [] c[1] = "cc" -> WithCopy(st, c[2], st.sl[c[3]])
    [] c[1] = "ca" -> IF c[2] = c[3] THEN st ELSE WithCopy(st, c[2], st.sl[c[3]])
    [] c[1] \in {"mc", "ma"} -> WithMove(st, c[2], c[3])
    [] c[1] = "sw" -> [st EXCEPT !.sl[c[2]] = st.sl[c[3]], !.sl[c[3]] = st.sl[c[2]]]
    [] c[1] = "take" -> [st EXCEPT !.sl[c[2]] = [ty |-> c[4], own |-> FALSE, tok |-> st.sl[c[3]].tok,
                                                msg |-> st.sl[c[3]].msg, path |-> st.sl[c[3]].path \o c[5]]]
    [] c[1] = "del" -> [st EXCEPT !.sl[c[2]] = None, !.alive = @ \ OwnTok(st.sl[c[2]])]
    [] c[1] = "free" -> [st EXCEPT !.alive = @ \ {c[2]}]
=============================================================================
