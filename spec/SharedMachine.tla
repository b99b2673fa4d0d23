--------------------------- MODULE SharedMachine ---------------------------
(* Threads that share messages and values but nothing they could change: a read goes
   through several steps over the message, a write builds bytes of its own. Whatever
   the interleaving, each result is the function of its arguments alone. Cache is a
   design that remembers the last position found in a place all threads share; TLC
   shows that it is wrong (MCSharedCache is expected to fail and is not run). *)
EXTENDS Naturals, Sequences
CONSTANTS Threads, Msg, Cache                       \* Msg: sequence of <<key, value>>
VARIABLES pc, want, at, out, hint
vars == <<pc, want, at, out, hint>>
Keys == {Msg[i][1] : i \in 1..Len(Msg)} \cup {"none"}
Answer(k) == IF \E i \in 1..Len(Msg) : Msg[i][1] = k
             THEN Msg[CHOOSE i \in 1..Len(Msg) : Msg[i][1] = k][2] ELSE "error"
Init == /\ pc = [t \in Threads |-> "idle"] /\ want = [t \in Threads |-> "none"]
        /\ at = [t \in Threads |-> 1] /\ out = [t \in Threads |-> <<"none", "error">>] /\ hint = 1
Ask(t) == /\ pc[t] = "idle" /\ \E k \in Keys : want' = [want EXCEPT ![t] = k]
          /\ pc' = [pc EXCEPT ![t] = "seek"] /\ at' = [at EXCEPT ![t] = 1] /\ UNCHANGED <<out, hint>>
Seek(t) == /\ pc[t] = "seek"
           /\ IF at[t] > Len(Msg) THEN pc' = [pc EXCEPT ![t] = "idle"] /\ out' = [out EXCEPT ![t] = <<want[t], "error">>] /\ UNCHANGED <<at, hint>>
              ELSE IF Msg[at[t]][1] = want[t] THEN pc' = [pc EXCEPT ![t] = "fetch"] /\ hint' = (IF Cache THEN at[t] ELSE hint) /\ UNCHANGED <<at, out>>
              ELSE at' = [at EXCEPT ![t] = @ + 1] /\ UNCHANGED <<pc, out, hint>>
           /\ UNCHANGED want
Fetch(t) == /\ pc[t] = "fetch" /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ out' = [out EXCEPT ![t] = <<want[t], Msg[IF Cache THEN hint ELSE at[t]][2]>>]
            /\ UNCHANGED <<want, at, hint>>
Next == \E t \in Threads : Ask(t) \/ Seek(t) \/ Fetch(t)
Spec == Init /\ [][Next]_vars
Pure == \A t \in Threads : out[t][2] = Answer(out[t][1])
=============================================================================
