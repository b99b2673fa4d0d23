------------------------------- MODULE Values -------------------------------
(* The data model of zerialize and what reading a value back must show.

   Value  ::= <<"n">> | <<"b", bool>> | <<"i", w8>> | <<"u", w8>> | <<"d", w8>>
            | <<"s", bytes>> | <<"x", bytes>> | <<"a", seq of Value>>
            | <<"m", seq of <<key bytes, Value>> >>
            | <<"k", bytes>>  (a FlexBuffers key standing as a value)
            | <<"A", digest>> | <<"M", digest>>     (containers too large to list)
   where w8 is a 64-bit word (8 bytes, least significant first) and long byte
   strings are represented by a digest beginning with -9.

   Node (what a reader shows) ::= << seq of kinds whose predicate is true, shown >>
   where shown is like Value except that children are Nodes and integers are
   <<"I", asInt64 outcome, asUInt64 outcome>>; an outcome is a word or Err.
   Protocols are "Z" (Zera), "M" (MsgPack), "F" (FlexBuffers). *)
EXTENDS Bytes, FiniteSets

Err == <<-1>>                                       \* DeserializationError
Protocols == {"Z", "M", "F"}

Range(s) == {s[i] : i \in DOMAIN s}

Num(v) == IF v[1] = "i" THEN SignedNum(v[2]) ELSE UnsignedNum(v[2])
IsIntKind(v) == v[1] \in {"i", "u"}

KindOf(v) == CASE v[1] = "A" -> "a" [] v[1] = "M" -> "m" [] OTHER -> v[1]

(* Which values a protocol can represent at all: the facts a message description
   carries are mk, the longest map key, and nk, whether a key contains NUL. *)
Representable(p, mk, nk) ==
  CASE p = "Z" -> mk <= 65535
    [] p = "F" -> ~nk
    [] OTHER -> TRUE

(* Type predicates. Zera and Flex keep the signedness; MsgPack keeps the number,
   so a non-negative integer may be reported as signed, unsigned or both. *)
IntKindsOK(p, v, ks) ==
  IF p = "M"
  THEN /\ ks # {} /\ ks \subseteq {"i", "u"}
       /\ (Num(v)[1] => ks = {"i"})
       /\ (~FitsSigned(Num(v), 8) => ks = {"u"})
  ELSE ks = {v[1]}
KindsOK(p, v, ks) == IF IsIntKind(v) THEN IntKindsOK(p, v, ks) ELSE ks = {KindOf(v)}

(* 64-bit integer accessors: exact in the written signedness; the other one gives
   the same number or an error, and an error when it cannot hold it. *)
IntShownOK(p, v, s, u) ==
  LET n == Num(v) IN
  /\ IF v[1] = "i" \/ (FitsSigned(n, 8) /\ p # "F") THEN s = n[2]
     ELSE s = Err \/ (FitsSigned(n, 8) /\ s = n[2])
  /\ IF v[1] = "u" \/ (FitsUnsigned(n, 8) /\ p # "F") THEN u = n[2]
     ELSE u = Err \/ (FitsUnsigned(n, 8) /\ u = n[2])

RECURSIVE Matches(_, _, _)
MatchesMap(p, es, os) ==
  /\ Len(es) = Len(os)
  /\ \A i \in 1..Len(es) :
       IF es[i][1] = os[i][1] THEN Matches(p, es[i][2], os[i][2])
       ELSE \E j \in 1..Len(os) : os[j][1] = es[i][1] /\ Matches(p, es[i][2], os[j][2])
Matches(p, v, node) ==
  LET ks == Range(node[1])
      o == node[2]
  IN IF v[1] = "k" THEN (o[1] = "E" /\ ks = {}) \/ (o = <<"s", v[2]>> /\ ks = {"s"})  \* not supported, or the text it is
     ELSE IF o[1] = "E" THEN FALSE ELSE
     /\ KindsOK(p, v, ks)
     /\ CASE v[1] = "n" -> o[1] = "n"
          [] IsIntKind(v) -> o[1] = "I" /\ IntShownOK(p, v, o[2], o[3])
          [] v[1] = "d" -> o[1] = "d" /\ SameF64(v[2], o[2])
          [] v[1] = "a" -> /\ o[1] = "a"
                           /\ Len(v[2]) = Len(o[2])
                           /\ \A i \in 1..Len(v[2]) : Matches(p, v[2][i], o[2][i])
          [] v[1] = "m" -> o[1] = "m" /\ MatchesMap(p, v[2], o[2])
          [] OTHER -> o[1] = v[1] /\ o[2] = v[2]

(* The same with integers compared by number only (after a translation the
   signedness may have changed). *)
IntByNumber(v, ks, s, u) ==
  LET n == Num(v) IN
  /\ ks # {} /\ ks \subseteq {"i", "u"}
  /\ (n[1] => "u" \notin ks)
  /\ (~FitsSigned(n, 8) => "i" \notin ks)
  /\ s = Err \/ (FitsSigned(n, 8) /\ s = n[2])
  /\ u = Err \/ (FitsUnsigned(n, 8) /\ u = n[2])
  /\ ("i" \in ks => s # Err)
  /\ ("u" \in ks => u # Err)
RECURSIVE SameLogical(_, _)
SameLogical(v, node) ==
  LET ks == Range(node[1])
      o == node[2]
  IN IF o[1] = "E" THEN FALSE ELSE
     CASE v[1] = "n" -> o[1] = "n" /\ ks = {"n"}
       [] IsIntKind(v) -> o[1] = "I" /\ IntByNumber(v, ks, o[2], o[3])
       [] v[1] = "d" -> o[1] = "d" /\ ks = {"d"} /\ SameF64(v[2], o[2])
       [] v[1] = "a" -> /\ o[1] = "a" /\ ks = {"a"}
                        /\ Len(v[2]) = Len(o[2])
                        /\ \A i \in 1..Len(v[2]) : SameLogical(v[2][i], o[2][i])
       [] v[1] = "m" -> /\ o[1] = "m" /\ ks = {"m"}
                        /\ Len(v[2]) = Len(o[2])
                        /\ \A i \in 1..Len(v[2]) :
                             \E j \in 1..Len(o[2]) : /\ o[2][j][1] = v[2][i][1]
                                                     /\ SameLogical(v[2][i][2], o[2][j][2])
       [] OTHER -> o[1] = v[1] /\ o[2] = v[2] /\ ks = {KindOf(v)}
=============================================================================
