------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* What a JSON catalogue says: a reader of JSON text (RFC 8259) as an      *)
(* automaton that takes one character at a time, and the records a JSON    *)
(* value holds.  Values: <<"s", text>>, <<"n">> a number, <<"w">> true,    *)
(* false or null, <<"a", Seq(value)>>, <<"o", Seq(<<key, value>>)>>.       *)
(* Odd texts are those of which RFC 8259 (8.1, 6, 8.2) lets a reader think *)
(* what it likes: a byte-order mark in front, numbers with exponents no    *)
(* machine number has, halves of surrogate pairs that stand alone.         *)
(***************************************************************************)
EXTENDS Text

White(c) == c \in {32, 9, 10, 13}
Digit(c) == c \in 48..57
High(u) == u \in 55296..56319
Low(u) == u \in 56320..57343

(* m: what is expected; st: open containers, innermost last; str: text being *)
(* read; key: it is a key; u, k: escape being read; v: the value, once whole *)
Start == [m |-> "value", st |-> <<>>, str |-> <<>>, key |-> FALSE, u |-> 0, k |-> 0, v |-> <<>>, odd |-> FALSE]
Bad(s) == [s EXCEPT !.m = "bad"]

Deliver(s, v) ==
  IF s.st = <<>> THEN [s EXCEPT !.m = "after", !.v = v]
  ELSE LET top == Len(s.st)
           x == s.st[top]
       IN [s EXCEPT !.m = "after",
             !.st = [s.st EXCEPT ![top] = [x EXCEPT !.items = Append(@, IF x.t = "o" THEN <<x.key, v>> ELSE v)]]]
Open(s, t) == [s EXCEPT !.st = Append(@, [t |-> t, items |-> <<>>, key |-> <<>>]), !.m = IF t = "o" THEN "key0" ELSE "value0"]
Close(s, t) ==
  IF s.st = <<>> THEN Bad(s)
  ELSE LET x == s.st[Len(s.st)]
       IN IF x.t # t THEN Bad(s)
          ELSE Deliver([s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)], <<t, x.items>>)
Quote(s, key) == [s EXCEPT !.m = "text", !.str = <<>>, !.key = key]

After(s, c) ==
  CASE White(c) -> s
    [] c = 44 /\ s.st # <<>> -> [s EXCEPT !.m = IF s.st[Len(s.st)].t = "o" THEN "key" ELSE "value"]
    [] c = 125 -> Close(s, "o")
    [] c = 93 -> Close(s, "a")
    [] OTHER -> Bad(s)
Word(s, rest) == [s EXCEPT !.m = "word", !.str = rest]
Value(s, c) ==
  CASE White(c) -> s
    [] c = 123 -> Open(s, "o")
    [] c = 91 -> Open(s, "a")
    [] c = 34 -> Quote(s, FALSE)
    [] c = 45 -> [s EXCEPT !.m = "minus"]
    [] c = 48 -> [s EXCEPT !.m = "zero"]
    [] c \in 49..57 -> [s EXCEPT !.m = "digits"]
    [] c = 116 -> Word(s, <<114, 117, 101>>)
    [] c = 102 -> Word(s, <<97, 108, 115, 101>>)
    [] c = 110 -> Word(s, <<117, 108, 108>>)
    [] OTHER -> Bad(s)
(* where a number may end *)
NumberEnds(s) == s.m \in {"zero", "digits", "decimals", "exponent"}
EndNumber(s) == Deliver(s, <<"n">>)

Heard(s, c) ==              \* one more character of a text
  LET n == Len(s.str)
  IN IF Low(c) /\ n > 0 /\ High(s.str[n])
     THEN [s EXCEPT !.m = "text", !.str[n] = 65536 + (s.str[n] - 55296) * 1024 + (c - 56320)]
     ELSE [s EXCEPT !.m = "text", !.str = Append(@, c)]
EndText(r) ==
  LET s == [r EXCEPT !.odd = @ \/ \E i \in 1..Len(r.str) : r.str[i] \in 55296..57343]
  IN IF s.key THEN [s EXCEPT !.m = "colon", !.st[Len(s.st)].key = s.str] ELSE Deliver(s, <<"s", s.str>>)
Escape(s, c) ==
  CASE c = 98 -> Heard(s, 8)
    [] c = 102 -> Heard(s, 12)
    [] c = 110 -> Heard(s, 10)
    [] c = 114 -> Heard(s, 13)
    [] c = 116 -> Heard(s, 9)
    [] c \in {34, 92, 47} -> Heard(s, c)
    [] c = 117 -> [s EXCEPT !.m = "hex", !.u = 0, !.k = 0]
    [] OTHER -> Bad(s)
HexDigit(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> 16
Hex(s, c) ==
  IF HexDigit(c) = 16 THEN Bad(s)
  ELSE IF s.k = 3 THEN Heard(s, s.u * 16 + HexDigit(c))
  ELSE [s EXCEPT !.u = @ * 16 + HexDigit(c), !.k = @ + 1]

Take(s, c) ==
  CASE s.m = "text" -> IF c = 34 THEN EndText(s) ELSE IF c = 92 THEN [s EXCEPT !.m = "escape"]
                       ELSE IF c < 32 THEN Bad(s) ELSE [s EXCEPT !.str = Append(@, c)]
    [] s.m = "escape" -> Escape(s, c)
    [] s.m = "hex" -> Hex(s, c)
    [] s.m = "value" -> Value(s, c)
    [] s.m = "value0" -> IF c = 93 THEN Close(s, "a") ELSE Value(s, c)
    [] s.m = "key0" -> IF White(c) THEN s ELSE IF c = 34 THEN Quote(s, TRUE) ELSE IF c = 125 THEN Close(s, "o") ELSE Bad(s)
    [] s.m = "key" -> IF White(c) THEN s ELSE IF c = 34 THEN Quote(s, TRUE) ELSE Bad(s)
    [] s.m = "colon" -> IF White(c) THEN s ELSE IF c = 58 THEN [s EXCEPT !.m = "value"] ELSE Bad(s)
    [] s.m = "after" -> After(s, c)
    [] s.m = "word" -> IF s.str = <<>> THEN After(Deliver(s, <<"w">>), c)
                       ELSE IF c = Head(s.str) THEN [s EXCEPT !.str = Tail(@)] ELSE Bad(s)
    [] s.m = "minus" -> IF c = 48 THEN [s EXCEPT !.m = "zero"] ELSE IF c \in 49..57 THEN [s EXCEPT !.m = "digits"] ELSE Bad(s)
    [] s.m \in {"zero", "digits"} /\ c = 46 -> [s EXCEPT !.m = "point"]
    [] s.m \in {"zero", "digits", "decimals"} /\ c \in {69, 101} -> [s EXCEPT !.m = "e", !.k = 0]
    [] s.m = "digits" /\ Digit(c) -> s
    [] s.m \in {"point", "decimals"} /\ Digit(c) -> [s EXCEPT !.m = "decimals"]
    [] s.m = "e" /\ c \in {43, 45} -> [s EXCEPT !.m = "sign"]
    [] s.m \in {"e", "sign", "exponent"} /\ Digit(c) -> [s EXCEPT !.m = "exponent", !.k = @ + 1, !.odd = @ \/ s.k >= 2]
    [] NumberEnds(s) -> After(EndNumber(s), c)
    [] OTHER -> Bad(s)

ReadAll(text) == FoldLeft(LAMBDA s, c : IF s.m = "bad" THEN s ELSE Take(s, c), Start, text)
Odd(text) == (text # <<>> /\ text[1] = 65279) \/ ReadAll(text).odd

(* <<value>>, or <<>> when the text is not JSON *)
ReadJson(text) ==
  With(ReadAll(text), LAMBDA s :
    IF s.st # <<>> THEN <<>>
    ELSE IF s.m = "after" THEN <<s.v>>
    ELSE IF NumberEnds(s) THEN <<<<"n">>>>
    ELSE IF s.m = "word" /\ s.str = <<>> THEN <<<<"w">>>>
    ELSE <<>>)

---------------------------------------------------------------------------
(* The catalogue a JSON value is: <<"refused">>, <<"open">> when a field   *)
(* cannot be understood one way only, or <<"records", Seq(record)>>.       *)
Kdescription == <<100,101,115,99,114,105,112,116,105,111,110>>
Ktitle == <<116,105,116,108,101>>
Kvendor == <<118,101,110,100,111,114>>
Kid == <<105,100>>
Ktags == <<116,97,103,115>>
Koptions == <<111,112,116,105,111,110,115>>
Kname == <<110,97,109,101>>
Kvalues == <<118,97,108,117,101,115>>
Kprice == <<112,114,105,99,101>>
Kmin == <<109,105,110>>
Kmax == <<109,97,120>>
Kamount == <<97,109,111,117,110,116>>
KcurrencyCode == <<99,117,114,114,101,110,99,121,67,111,100,101>>
Kmedia == <<109,101,100,105,97>>
Kurl == <<117,114,108>>

All(o, key) == SelectSeq(o[2], LAMBDA f : f[1] = key)
Is1(x, t) == x[1] = t
HasOne(o, key) == All(o, key) # <<>>
At(o, key) == All(o, key)[1][2]
Field(o, key, t) == HasOne(o, key) /\ Is1(At(o, key), t)
Texts(x) == \A k \in 1..Len(x[2]) : Is1(x[2][k], "s")

Amount(o) == Is1(o, "o") /\ Field(o, KcurrencyCode, "s") /\ Field(o, Kamount, "s")
Priced(o) == Is1(o, "o") /\ HasOne(o, Kmin) /\ HasOne(o, Kmax) /\ Amount(At(o, Kmin)) /\ Amount(At(o, Kmax))
Option(o) == Is1(o, "o") /\ Field(o, Kname, "s") /\ Field(o, Kvalues, "a") /\ Texts(At(o, Kvalues))
Medium(o) == Is1(o, "o") /\ Field(o, Kurl, "s")
IsRecord(o) ==
  /\ Is1(o, "o")
  /\ \A key \in {Kdescription, Ktitle, Kvendor, Kid} : Field(o, key, "s")
  /\ Field(o, Ktags, "a") /\ Texts(At(o, Ktags))
  /\ Field(o, Koptions, "a") /\ \A k \in 1..Len(At(o, Koptions)[2]) : Option(At(o, Koptions)[2][k])
  /\ Field(o, Kmedia, "a") /\ \A k \in 1..Len(At(o, Kmedia)[2]) : Medium(At(o, Kmedia)[2][k])
  /\ HasOne(o, Kprice) /\ Priced(At(o, Kprice))

(* An amount of at most a million with at most three decimals that matter *)
Thousandths(t) ==           \* <<>> or <<number>>
  LET dots == {i \in 1..Len(t) : t[i] = 46}
      at == IF dots = {} THEN Len(t) + 1 ELSE CHOOSE i \in dots : TRUE
      whole == SubSeq(t, 1, at - 1)
      part == SubSeq(t, at + 1, Len(t))
      padded == SubSeq(part \o <<48, 48, 48>>, 1, 3)
      num(ds) == FoldLeft(LAMBDA a, c : a * 10 + c - 48, 0, ds)
  IN IF /\ Cardinality(dots) <= 1 /\ whole # <<>> /\ Len(whole) <= 7 /\ (dots # {} => part # <<>>)
        /\ \A i \in 1..Len(whole) : Digit(whole[i])
        /\ \A i \in 1..Len(part) : Digit(part[i])
        /\ \A i \in 4..Len(part) : part[i] = 48
     THEN With(<<num(whole), num(padded)>>, LAMBDA n :
            IF n[1] > 1000000 \/ (n[1] = 0 /\ n[2] \in 1..7) THEN <<>> ELSE <<n[1] * 1000 + n[2]>>)
     ELSE <<>>

RECURSIVE Clear(_, _)       \* not too deep
Clear(x, d) ==
  CASE Is1(x, "a") -> d > 0 /\ \A k \in 1..Len(x[2]) : Clear(x[2][k], d - 1)
    [] Is1(x, "o") -> d > 0 /\ \A k \in 1..Len(x[2]) : Clear(x[2][k][2], d - 1)
    [] OTHER -> TRUE
Known == {Kdescription, Ktitle, Kvendor, Kid, Ktags, Koptions, Kprice, Kmedia, Kname, Kvalues, Kmin, Kmax, Kamount, KcurrencyCode, Kurl}
Twice(o) == \E k \in Known : Len(All(o, k)) > 1
RecordClear(o) ==
  /\ ~Twice(o)
  /\ ~Twice(At(o, Kprice)) /\ ~Twice(At(At(o, Kprice), Kmin)) /\ ~Twice(At(At(o, Kprice), Kmax))
  /\ \A k \in 1..Len(At(o, Koptions)[2]) : ~Twice(At(o, Koptions)[2][k])
  /\ \A k \in 1..Len(At(o, Kmedia)[2]) : ~Twice(At(o, Kmedia)[2][k])
  /\ Thousandths(At(At(At(o, Kprice), Kmin), Kamount)[2]) # <<>>
Record(o) ==
  LET list(key) == At(o, key)[2]
      strings(x) == [k \in 1..Len(x[2]) |-> x[2][k][2]]
  IN [desc |-> At(o, Kdescription)[2], title |-> At(o, Ktitle)[2], vendor |-> At(o, Kvendor)[2], id |-> At(o, Kid)[2],
      tags |-> strings(At(o, Ktags)),
      opts |-> [k \in 1..Len(list(Koptions)) |-> [name |-> At(list(Koptions)[k], Kname)[2], values |-> strings(At(list(Koptions)[k], Kvalues))]],
      price |-> Thousandths(At(At(At(o, Kprice), Kmin), Kamount)[2])[1],
      images |-> [k \in 1..Len(list(Kmedia)) |-> At(list(Kmedia)[k], Kurl)[2]],
      feats |-> <<>>]

(* somewhere an array stands where an object belongs *)
ListFor(o) == Is1(o, "a")
Listed(o) ==
  \/ ListFor(o)
  \/ /\ Is1(o, "o")
     /\ \/ HasOne(o, Kprice) /\ (ListFor(At(o, Kprice)) \/ (Is1(At(o, Kprice), "o") /\ \E k \in {Kmin, Kmax} : HasOne(At(o, Kprice), k) /\ ListFor(At(At(o, Kprice), k))))
        \/ \E key \in {Koptions, Kmedia} : Field(o, key, "a") /\ \E k \in 1..Len(At(o, key)[2]) : ListFor(At(o, key)[2][k])

Reading(text) ==
  With(ReadJson(text), LAMBDA x :
    IF Odd(text) THEN <<"open">>
    ELSE IF x = <<>> THEN <<"refused">>
    ELSE IF ~Is1(x[1], "o") THEN <<"refused">>
    ELSE LET recs == [k \in 1..Len(x[1][2]) |-> x[1][2][k][2]]
             keys == [k \in 1..Len(x[1][2]) |-> x[1][2][k][1]]
         IN IF \E k \in 1..Len(recs) : ~IsRecord(recs[k]) /\ ~Listed(recs[k]) /\ ~(Is1(recs[k], "o") /\ Twice(recs[k])) THEN <<"refused">>
            ELSE IF \E k \in 1..Len(recs) : ~IsRecord(recs[k]) \/ ~RecordClear(recs[k]) THEN <<"open">>
            ELSE IF ~Clear(x[1], 60) \/ Cardinality(Range1(keys)) # Len(keys) THEN <<"open">>
            ELSE With([k \in 1..Len(recs) |-> Record(recs[k])], LAMBDA rs :
                   IF Cardinality({rs[k].id : k \in 1..Len(rs)}) # Len(rs) THEN <<"open">> ELSE <<"records", rs>>))
=============================================================================
