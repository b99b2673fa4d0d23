---------------------------- MODULE JsonMachine ----------------------------
(* JSON texts once more, as a machine that takes one byte at a time: an account of
   RFC 8259 that shares nothing with the recursive definition in JsonFormat.
   State <<mode, open containers, auxiliary>>; the mode "dead" is final. *)
EXTENDS Integers, Sequences

MStart == <<"v", <<>>, <<>>>>
Dead == <<"dead", <<>>, <<>>>>
Digit(b) == b \in 48..57
White(b) == b \in {9, 10, 13, 32}
HexD(b) == b \in 48..57 \/ b \in 65..70 \/ b \in 97..102
Lit(b) == CASE b = 110 -> <<117, 108, 108>> [] b = 116 -> <<114, 117, 101>> [] OTHER -> <<97, 108, 115, 101>>
NumEnds == {"zero", "int", "frac", "exp"}             \* modes in which a numeral may stop

AfterValue(st, b) ==                                  \* b comes after a complete value
  CASE White(b) -> <<"end", st, <<>>>>
    [] b = 44 /\ st # <<>> -> <<IF st[Len(st)] = "[" THEN "v" ELSE "name", st, <<>>>>
    [] b = 93 /\ st # <<>> /\ st[Len(st)] = "[" -> <<"end", SubSeq(st, 1, Len(st) - 1), <<>>>>
    [] b = 125 /\ st # <<>> /\ st[Len(st)] = "{" -> <<"end", SubSeq(st, 1, Len(st) - 1), <<>>>>
    [] OTHER -> Dead
BeginValue(st, b) ==
  CASE b = 91 -> <<"first", Append(st, "["), <<>>>>
    [] b = 123 -> <<"member", Append(st, "{"), <<>>>>
    [] b = 34 -> <<"str", st, <<"end">>>>
    [] b \in {110, 116, 102} -> <<"lit", st, Lit(b)>>
    [] b = 45 -> <<"minus", st, <<>>>>
    [] b = 48 -> <<"zero", st, <<>>>>
    [] b \in 49..57 -> <<"int", st, <<>>>>
    [] OTHER -> Dead
(* Inside a string; aux = <<mode after the string>>, followed by what is pending. *)
InString(st, aux, b) ==
  CASE b = 34 -> <<aux[1], st, <<>>>>
    [] b = 92 -> <<"esc", st, aux>>
    [] b < 32 -> Dead
    [] b < 128 -> <<"str", st, aux>>
    [] b \in 194..223 -> <<"utf", st, aux \o <<<<128, 191>>>>>>
    [] b \in 224..239 -> <<"utf", st, aux \o <<<<IF b = 224 THEN 160 ELSE 128, IF b = 237 THEN 159 ELSE 191>>, <<128, 191>>>>>>
    [] b \in 240..244 -> <<"utf", st, aux \o <<<<IF b = 240 THEN 144 ELSE 128, IF b = 244 THEN 143 ELSE 191>>, <<128, 191>>, <<128, 191>>>>>>
    [] OTHER -> Dead
MStep(m, b) ==
  LET st == m[2]
      aux == m[3]
      done == Len(aux) = 2
  IN CASE m[1] = "dead" -> Dead
       [] m[1] = "v" -> IF White(b) THEN m ELSE BeginValue(st, b)
       [] m[1] = "first" -> IF White(b) THEN m ELSE IF b = 93 THEN AfterValue(st, b) ELSE BeginValue(st, b)
       [] m[1] = "member" -> IF White(b) THEN m ELSE IF b = 125 THEN AfterValue(st, b) ELSE IF b = 34 THEN <<"str", st, <<"colon">>>> ELSE Dead
       [] m[1] = "name" -> IF White(b) THEN m ELSE IF b = 34 THEN <<"str", st, <<"colon">>>> ELSE Dead
       [] m[1] = "colon" -> IF White(b) THEN m ELSE IF b = 58 THEN <<"v", st, <<>>>> ELSE Dead
       [] m[1] = "end" -> AfterValue(st, b)
       [] m[1] = "lit" -> IF b # aux[1] THEN Dead ELSE IF Len(aux) = 1 THEN <<"end", st, <<>>>> ELSE <<"lit", st, Tail(aux)>>
       [] m[1] = "minus" -> IF b = 48 THEN <<"zero", st, <<>>>> ELSE IF Digit(b) THEN <<"int", st, <<>>>> ELSE Dead
       [] m[1] = "dot" -> IF Digit(b) THEN <<"frac", st, <<>>>> ELSE Dead
       [] m[1] = "e" -> IF b \in {43, 45} THEN <<"esign", st, <<>>>> ELSE IF Digit(b) THEN <<"exp", st, <<>>>> ELSE Dead
       [] m[1] = "esign" -> IF Digit(b) THEN <<"exp", st, <<>>>> ELSE Dead
       [] m[1] \in NumEnds ->
            (CASE Digit(b) -> IF m[1] = "zero" THEN Dead ELSE m
               [] b = 46 -> IF m[1] \in {"zero", "int"} THEN <<"dot", st, <<>>>> ELSE Dead
               [] b \in {69, 101} -> IF m[1] = "exp" THEN Dead ELSE <<"e", st, <<>>>>
               [] OTHER -> AfterValue(st, b))
       [] m[1] = "str" -> InString(st, aux, b)
       [] m[1] = "utf" -> IF ~(b \in aux[2][1]..aux[2][2]) THEN Dead
                          ELSE IF done THEN <<"str", st, <<aux[1]>>>> ELSE <<"utf", st, <<aux[1]>> \o SubSeq(aux, 3, Len(aux))>>
       [] m[1] = "esc" -> IF b = 117 THEN <<"hex", st, aux \o <<<<>>>>>>
                          ELSE IF b \in {34, 92, 47, 98, 102, 110, 114, 116} THEN <<"str", st, aux>> ELSE Dead
       [] m[1] = "hex" ->                              \* <<after, digits so far>>: a high surrogate wants a low one
            LET ds == Append(aux[2], IF Digit(b) THEN b - 48 ELSE IF b < 97 THEN b - 55 ELSE b - 87)
                sur == ds[1] = 13 /\ ds[2] >= 8
            IN IF ~HexD(b) THEN Dead ELSE IF Len(ds) < 4 THEN <<"hex", st, <<aux[1], ds>>>>
               ELSE IF ~sur THEN <<"str", st, <<aux[1]>>>>
               ELSE IF ds[2] < 12 THEN <<"low", st, <<aux[1], 0, <<>>>>>> ELSE Dead
       [] m[1] = "low" ->                              \* <<after, place in "\uXXXX", digits>>
            IF aux[2] = 0 THEN (IF b = 92 THEN <<"low", st, <<aux[1], 1, <<>>>>>> ELSE Dead)
            ELSE IF aux[2] = 1 THEN (IF b = 117 THEN <<"low", st, <<aux[1], 2, <<>>>>>> ELSE Dead)
            ELSE LET ok == CASE aux[2] = 2 -> b \in {68, 100} [] aux[2] = 3 -> b \in 67..70 \/ b \in 99..102 [] OTHER -> HexD(b)
                 IN IF ~ok THEN Dead ELSE IF aux[2] = 5 THEN <<"str", st, <<aux[1]>>>> ELSE <<"low", st, <<aux[1], aux[2] + 1, <<>>>>>>
       [] OTHER -> Dead
MAccepts(m) == m[2] = <<>> /\ m[1] \in NumEnds \cup {"end"}
RECURSIVE MRun(_, _)
MRun(m, s) == IF s = <<>> THEN m ELSE LET x == MStep(m, Head(s)) IN IF x = Dead THEN Dead ELSE MRun(x, Tail(s))
=============================================================================
