------------------------------ MODULE Formats ------------------------------
(* The four wire formats side by side: what is a message of protocol p, and which value
   it stands for. *)
EXTENDS Values
ZF == INSTANCE ZeraFormat
MF == INSTANCE MsgPackFormat
FF == INSTANCE FlexFormat
CF == INSTANCE CborFormat
AllProtocols == Protocols \cup {"C"}
IsMessage(p, b) ==
  CASE p = "Z" -> ZF!HeaderOK(b) /\ ZF!ValidTree(ZF!Ctx(b), ZF!HdrRoot(b))
    [] p = "M" -> MF!OneMessage([B |-> b])
    [] p = "F" -> FF!OneMessage([B |-> b])
    [] p = "C" -> CF!OneMessage([B |-> b]) /\ CF!Contiguous([B |-> b], CF!RootOf([B |-> b]))
    [] OTHER -> FALSE
MeaningOf(p, b) ==
  CASE p = "Z" -> ZF!Decode(ZF!Ctx(b), ZF!HdrRoot(b))
    [] p = "M" -> MF!Decode([B |-> b], MF!RootOf([B |-> b]))
    [] p = "C" -> CF!Decode([B |-> b], CF!RootOf([B |-> b]))
    [] OTHER -> FF!Meaning([B |-> b])
=============================================================================
