------------------------------ MODULE MC_Json ------------------------------
(***************************************************************************)
(* The reader of JsonText against the grammar of JSON, written down the    *)
(* other way: every text over Chars up to Length characters, between       *)
(* Before and After.                                                       *)
(***************************************************************************)
EXTENDS JsonText, Json
CONSTANTS Chars, Length, Before, Behind, Emit

VARIABLE s
MCInit == s = <<>>
MCNext == Len(s) < Length /\ \E c \in Chars : s' = Append(s, c)
MCSpec == MCInit /\ [][MCNext]_s

Text == Before \o s \o Behind

(* RFC 8259, production by production *)
Blank(t) == \A i \in 1..Len(t) : White(t[i])
Cut(t, i) == <<SubSeq(t, 1, i - 1), SubSeq(t, i + 1, Len(t))>>
Digits(t) == t # <<>> /\ \A i \in 1..Len(t) : Digit(t[i])
IsInt(t) == Digits(t) /\ (Len(t) = 1 \/ t[1] # 48)
IsExp(t) == Digits(t) \/ (t # <<>> /\ t[1] \in {43, 45} /\ Digits(Tail(t)))
IsMantissa(t) == IsInt(t) \/ \E i \in 1..Len(t) : t[i] = 46 /\ IsInt(Cut(t, i)[1]) /\ Digits(Cut(t, i)[2])
IsPositive(t) == IsMantissa(t) \/ \E i \in 1..Len(t) : t[i] \in {69, 101} /\ IsMantissa(Cut(t, i)[1]) /\ IsExp(Cut(t, i)[2])
IsNumber(t) == IsPositive(t) \/ (t # <<>> /\ t[1] = 45 /\ IsPositive(Tail(t)))
RECURSIVE IsInside(_)       \* what may stand between quotes
IsInside(t) ==
  \/ t = <<>>
  \/ t[1] >= 32 /\ t[1] \notin {34, 92} /\ IsInside(Tail(t))
  \/ Len(t) >= 2 /\ t[1] = 92 /\ t[2] \in {34, 92, 47, 98, 102, 110, 114, 116} /\ IsInside(SubSeq(t, 3, Len(t)))
  \/ Len(t) >= 6 /\ t[1] = 92 /\ t[2] = 117 /\ (\A i \in 3..6 : t[i] \in (48..57) \cup (65..70) \cup (97..102)) /\ IsInside(SubSeq(t, 7, Len(t)))
IsText(t) == Len(t) >= 2 /\ t[1] = 34 /\ t[Len(t)] = 34 /\ IsInside(SubSeq(t, 2, Len(t) - 1))
IsWord(t) == t \in {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<110, 117, 108, 108>>}
RECURSIVE IsValue(_)
RECURSIVE IsItems(_)
RECURSIVE IsMembers(_)
Inner(t) == SubSeq(t, 2, Len(t) - 1)
Spaced(t, Op(_)) ==         \* with white space around it
  \E i, j \in 0..Len(t) : i + j <= Len(t) /\ Blank(SubSeq(t, 1, i)) /\ Blank(SubSeq(t, Len(t) - j + 1, Len(t))) /\ Op(SubSeq(t, i + 1, Len(t) - j))
IsValue(t) ==
  Spaced(t, LAMBDA x :
    \/ IsNumber(x) \/ IsText(x) \/ IsWord(x)
    \/ Len(x) >= 2 /\ x[1] = 91 /\ x[Len(x)] = 93 /\ (Blank(Inner(x)) \/ IsItems(Inner(x)))
    \/ Len(x) >= 2 /\ x[1] = 123 /\ x[Len(x)] = 125 /\ (Blank(Inner(x)) \/ IsMembers(Inner(x))))
IsItems(t) == IsValue(t) \/ \E i \in 1..Len(t) : t[i] = 44 /\ IsValue(Cut(t, i)[1]) /\ IsItems(Cut(t, i)[2])
IsMember(t) == \E i \in 1..Len(t) : t[i] = 58 /\ Spaced(Cut(t, i)[1], IsText) /\ IsValue(Cut(t, i)[2])
IsMembers(t) == IsMember(t) \/ \E i \in 1..Len(t) : t[i] = 44 /\ IsMember(Cut(t, i)[1]) /\ IsMembers(Cut(t, i)[2])

AcceptsJson == (ReadJson(Text) # <<>>) = IsValue(Text)

(* Spelled by the plainest rule, a value reads back as itself *)
RECURSIVE Spell(_)
Join(ts) == FoldLeft(LAMBDA a, t : IF a = <<>> THEN t ELSE a \o <<44>> \o t, <<>>, ts)
Escaped(c) == IF c \in {34, 92} THEN <<92, c>> ELSE IF c < 32 THEN <<92, 117, 48, 48, 48 + c \div 16, IF (c % 16) < 10 THEN 48 + (c % 16) ELSE 87 + (c % 16)>> ELSE <<c>>
Quoted(t) == <<34>> \o FoldLeft(LAMBDA a, c : a \o Escaped(c), <<>>, t) \o <<34>>
Spell(v) ==
  CASE v[1] = "s" -> Quoted(v[2])
    [] v[1] = "n" -> <<45, 49, 46, 48, 101, 43, 50>>
    [] v[1] = "w" -> <<110, 117, 108, 108>>
    [] v[1] = "a" -> <<91>> \o Join([k \in 1..Len(v[2]) |-> Spell(v[2][k])]) \o <<93>>
    [] v[1] = "o" -> <<123>> \o Join([k \in 1..Len(v[2]) |-> Quoted(v[2][k][1]) \o <<58>> \o Spell(v[2][k][2])]) \o <<125>>
(* s as a text, and as the text, key and item of small values *)
ReadsBack ==
  LET t == <<"s", s>>
      vs == {t, <<"a", <<t, <<"n">>, t>>>>, <<"o", <<<<s, t>>, <<<<>>, <<"w">>>>, <<s, <<"a", <<>>>>>>>>>>,
             <<"a", <<<<"o", <<>>>>, <<"a", <<<<"o", <<<<s, <<"n">>>>>>>>>>>>>>>>}
  IN \A v \in vs : ReadJson(Spell(v)) = <<v>>

EmitCase == IF Emit THEN PrintT(<<"CASE", ToJson(Text)>>) ELSE TRUE

(* <<tuples>> for the configuration *)
Nothing == <<>>
QuoteMark == <<34>>
QuoteU == <<34, 92, 117, 48>>
=============================================================================
