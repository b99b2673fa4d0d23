------------------------------ MODULE TraceC15 ------------------------------
(* What a front end told a writer. Each line describes a value v and lists the call
   sequences recorded when it was serialized repeatedly, from copies, through type
   erasure; and what the real protocols read back (nodes). Every sequence must run
   through the writer machine without an illegal call, announce the true number of
   elements, and leave exactly v: in order ("exact"), up to the order of map entries
   ("unordered"), or also up to the signedness of integers ("number"). *)
EXTENDS WriterMachine, TraceBase
VARIABLES l, run, k, s, an                    \* an: announced counts of the open containers

RECURSIVE Eq(_, _, _)
EqMap(how, x, y) ==
  /\ Len(x) = Len(y)
  /\ \A i \in 1..Len(x) :
       IF x[i][1] = y[i][1] THEN Eq(how, x[i][2], y[i][2])
       ELSE how # "exact" /\ \E j \in 1..Len(y) : y[j][1] = x[i][1] /\ Eq(how, x[i][2], y[j][2])
Eq(how, v, w) ==
  IF IsIntKind(v) THEN IsIntKind(w) /\ (IF how = "number" THEN Num(v) = Num(w) ELSE v = w)
  ELSE /\ v[1] = w[1]
       /\ CASE v[1] = "n" -> TRUE
            [] v[1] = "d" -> SameF64(v[2], w[2])
            [] v[1] = "a" -> Len(v[2]) = Len(w[2]) /\ \A i \in 1..Len(v[2]) : Eq(how, v[2][i], w[2][i])
            [] v[1] = "m" -> EqMap(how, v[2], w[2])
            [] OTHER -> v[2] = w[2]

NodesOK(r) == \A i \in 1..Len(r.nodes) :
  LET p == r.nodes[i][1] IN
  IF r.how = "number" THEN SameLogical(r.v, r.nodes[i][2]) ELSE Matches(p, r.v, r.nodes[i][2])

(* A container too large to list: [how it opened, announced count, values, keys, misplaced
   calls, how it closed, digest]. Counts are judged here; the digest stands for the contents. *)
SumOK(want, got) ==
  LET n == want[3] IN
  /\ got[1] \in {"[", "{"} /\ got[6] = (IF got[1] = "[" THEN "]" ELSE "}")    \* one container, opened and closed alike
  /\ got[2] = got[3]                                                        \* announces what it contains
  /\ got[4] = (IF got[1] = "[" THEN 0 ELSE got[3]) /\ got[5] = 0            \* a key before each value of a map
  /\ got[1] = want[1] /\ got[3] = n /\ got[7] = want[7]                     \* and it is the value

Reset == k' = 1 /\ s' = Start /\ an' = <<>>
NextLine == l' = l + Lanes /\ run' = 1 /\ Reset
Step == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
           IF Crashed(r) THEN Reject(r, "crash") /\ NextLine
           ELSE IF "big" \in DOMAIN r
           THEN (IF r.sums # <<>> /\ \A i \in 1..Len(r.sums) : SumOK(r.big, r.sums[i]) THEN TRUE ELSE Reject(r, <<"large container", r.big, r.sums>>)) /\ NextLine
           ELSE IF run > Len(r.runs)
           THEN (IF Len(r.runs) + Len(r.nodes) > 0 /\ NodesOK(r) THEN TRUE ELSE Reject(r, "read back")) /\ NextLine
           ELSE LET cs == r.runs[run] IN
                IF k > Len(cs)
                THEN IF s.st = <<>> /\ s.root # <<>> /\ Eq(r.how, r.v, s.root[1])
                     THEN l' = l /\ run' = run + 1 /\ Reset
                     ELSE Reject(r, <<"run", run, "does not describe the value">>) /\ NextLine
                ELSE LET c == cs[k] IN
                     IF c[1] \in {"v", "k", "[", "{", "]", "}"} /\ Legal(s, c)
                        /\ (c[1] \in {"]", "}"} => an[Len(an)] = Len(Top(s).items))
                     THEN /\ l' = l /\ run' = run /\ k' = k + 1 /\ s' = Effect(s, c)
                          /\ an' = (IF IsBegin(c) THEN Append(an, c[2])
                                    ELSE IF c[1] \in {"]", "}"} THEN SubSeq(an, 1, Len(an) - 1) ELSE an)
                     ELSE Reject(r, <<"run", run, "call", k, c>>) /\ NextLine
Init == l \in 1..Lanes /\ run = 1 /\ k = 1 /\ s = Start /\ an = <<>>
Next == Step \/ (l > Len(Trace) /\ UNCHANGED <<l, run, k, s, an>>)
Spec == Init /\ [][Next]_<<l, run, k, s, an>>
=============================================================================
