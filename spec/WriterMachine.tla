--------------------------- MODULE WriterMachine ---------------------------
(* The Writer protocol as a state machine. State: [root |-> <<>> or <<value>>,
   st |-> stack of open containers, innermost last], a container being
   [k |-> "a" or "m", items |-> what it holds, key |-> <<>> or <<pending key>>,
    doomed |-> it was started where no value may go].
   Calls: <<"v", value>>  <<"k", key>>  <<"[">>  <<"{">>  <<"]">>  <<"}">>. *)
EXTENDS Values

Start == [root |-> <<>>, st |-> <<>>]
Top(s) == s.st[Len(s.st)]
Pop(s) == [s EXCEPT !.st = SubSeq(s.st, 1, Len(s.st) - 1)]
SetTop(s, f) == [s EXCEPT !.st[Len(s.st)] = f]

(* May a value go here? *)
Room(s) == IF s.st = <<>> THEN s.root = <<>>
           ELSE Top(s).k = "a" \/ Top(s).key # <<>>
Deliver(s, v) ==
  IF s.st = <<>> THEN [s EXCEPT !.root = <<v>>]
  ELSE LET f == Top(s) IN
       IF f.k = "a" THEN SetTop(s, [f EXCEPT !.items = Append(f.items, v)])
       ELSE SetTop(s, [f EXCEPT !.items = Append(f.items, <<f.key[1], v>>), !.key = <<>>])
Frame(kind, doomed) == [k |-> kind, items |-> <<>>, key |-> <<>>, doomed |-> doomed]

IsBegin(c) == c[1] \in {"[", "{"}
Legal(s, c) ==
  CASE c[1] = "v" -> Room(s)
    [] IsBegin(c) -> Room(s)
    [] c[1] = "k" -> s.st # <<>> /\ Top(s).k = "m" /\ Top(s).key = <<>>
    [] c[1] = "]" -> s.st # <<>> /\ Top(s).k = "a" /\ ~Top(s).doomed
    [] c[1] = "}" -> s.st # <<>> /\ Top(s).k = "m" /\ Top(s).key = <<>> /\ ~Top(s).doomed
(* An end that matches no open container of its kind. *)
Mismatched(s, c) == \/ c[1] = "]" /\ (s.st = <<>> \/ Top(s).k # "a")
                    \/ c[1] = "}" /\ (s.st = <<>> \/ Top(s).k # "m")
(* The effect of a call that was accepted; accepting a begin that is not legal
   leaves a container that can never be ended. *)
Effect(s, c) ==
  CASE c[1] = "v" -> Deliver(s, c[2])
    [] c[1] = "k" -> SetTop(s, [Top(s) EXCEPT !.key = <<c[2]>>])
    [] c[1] = "[" -> [s EXCEPT !.st = Append(s.st, Frame("a", ~Room(s)))]
    [] c[1] = "{" -> [s EXCEPT !.st = Append(s.st, Frame("m", ~Room(s)))]
    [] c[1] \in {"]", "}"} -> Deliver(Pop(s), <<Top(s).k, Top(s).items>>)
CanFinish(s) == s.st = <<>>
Result(s) == IF s.root = <<>> THEN <<"n">> ELSE s.root[1]
=============================================================================
