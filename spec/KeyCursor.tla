----------------------------- MODULE KeyCursor -----------------------------
(* The keys of a map are a forward range that can be walked any number of times, by any
   number of independent positions. ks is the sequence of keys, pos the places (0-based,
   Len(ks) is the end) of the cursors. A step is <<operation, cursor, argument, result>>. *)
EXTENDS Naturals, Sequences
StepOK(ks, pos, s) ==
  LET n == Len(ks)
      p == pos[s[2]]
  IN CASE s[1] \in {"begin", "end"} -> TRUE
       [] s[1] = "copy" -> TRUE
       [] s[1] = "pre"  -> p < n /\ (p + 1 = n \/ s[4] = <<ks[p + 2]>>)        \* ++i, then *i
       [] s[1] = "post" -> p < n /\ s[4] = <<ks[p + 1]>>                       \* *i++
       [] s[1] = "deref" -> p < n /\ s[4] = <<ks[p + 1]>>
       [] s[1] = "eq"   -> s[4] = (IF p = pos[s[3]] THEN 1 ELSE 0)             \* i == j
       [] s[1] = "ne"   -> s[4] = (IF p # pos[s[3]] THEN 1 ELSE 0)             \* i != j
       [] s[1] = "left" -> s[4] = n - p                                        \* distance to the end
       [] s[1] = "next" -> p + s[3] <= n
       [] s[1] = "find" -> TRUE
       [] OTHER -> FALSE
Find(ks, key) == IF \E i \in 1..Len(ks) : ks[i] = key
                 THEN (CHOOSE i \in 1..Len(ks) : ks[i] = key /\ \A j \in 1..(i - 1) : ks[j] # key) - 1 ELSE Len(ks)
StepTo(ks, pos, s) ==
  [pos EXCEPT ![s[2]] = CASE s[1] = "begin" -> 0
                          [] s[1] = "end" -> Len(ks)
                          [] s[1] = "copy" -> pos[s[3]]
                          [] s[1] \in {"pre", "post"} -> @ + 1
                          [] s[1] = "next" -> @ + s[3]
                          [] s[1] = "find" -> Find(ks, s[3])
                          [] OTHER -> @]
RECURSIVE Walk(_, _, _, _)
Walk(ks, pos, steps, i) ==
  IF i > Len(steps) THEN TRUE
  ELSE StepOK(ks, pos, steps[i]) /\ Walk(ks, StepTo(ks, pos, steps[i]), steps, i + 1)
WalkOK(ks, steps) == Walk(ks, <<0, 0, 0>>, steps, 1)
=============================================================================
