------------------------------- MODULE MC_Text -------------------------------
(***************************************************************************)
(* Every short text, grown character by character: shortening (C17),       *)
(* numeric ids (C20), tag suggestion against every pair of tags (C15).     *)
(***************************************************************************)
EXTENDS Engine, Json
CONSTANTS Chars, Length, TagLength, Mode

VARIABLES s, t
mcvars == <<s, t, vars>>

MCInit == s = <<>> /\ t = <<>> /\ Init
MCNext == /\ \/ Len(s) < Length /\ \E c \in Chars : s' = Append(s, c) /\ UNCHANGED t
             \/ Mode = "suggest" /\ Len(t) < TagLength /\ \E c \in Chars : t' = Append(t, c) /\ UNCHANGED s
          /\ UNCHANGED vars
MCSpec == MCInit /\ [][MCNext]_mcvars

(* C17 *)
ShortensRight ==
  \A limit \in 0..(ByteLen(s) + 2) :
    LET r == Shorten(s, limit)
        fits(i) == Offset(s, i) <= limit
    IN /\ r = ShortenFast(s, limit)
       /\ IsPrefix(r, s)
       /\ IsPrefix(Utf8Bytes(r), Utf8Bytes(s))
       /\ (s # <<>> /\ fits(Len(s)) => r = s)
       /\ (r # s => /\ ~fits(Len(s))
                    \* cut before a space, or no space was in reach
                    /\ \/ r # <<>> /\ s[Len(r) + 1] = Space /\ fits(Len(r) + 1)
                          /\ \A i \in (Len(r) + 2)..Len(s) : s[i] = Space => ~fits(i)
                       \/ /\ ~\E i \in 2..Len(s) : s[i] = Space /\ fits(i)
                          /\ ~fits(Len(r) + 1) /\ (r # <<>> => fits(Len(r))))
       /\ (s # <<>> => r # <<>>)                                    \* never to nothing
       /\ ByteLen(r) <= limit + 4
       /\ \A m \in 0..limit : Len(Shorten(s, m)) <= Len(r)          \* more room never shortens more

(* C20 *)
Value(ds) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, ds)
NumbersRight ==
  LET ds == TrailingDigits(s)
      k == CHOOSE k \in 0..Len(s) : /\ \A i \in (Len(s) - k + 1)..Len(s) : IsDigit(s[i])
                                    /\ k = Len(s) \/ ~IsDigit(s[Len(s) - k])
  IN /\ ds # <<>> /\ \A i \in 1..Len(ds) : IsDigit(ds[i])
     /\ (Len(ds) > 1 => ds[1] # 48)
     /\ Value(ds) = Value(SubSeq(s, Len(s) - k + 1, Len(s)))

(* C15: query s against the tags t and a fixed one *)
Fixed == <<97, 98, 97, 98, 97>>
SuggestRight ==
  LET ws == Words(s)
      pairs == {<<x, w>> \in {t, Fixed} \X Range1(ws) : Qualifies(x, w)}
  IN /\ Concat([i \in 1..Len(ws) |-> IF i = 1 THEN ws[i] ELSE <<Space>> \o ws[i]]) = s
     /\ \A i \in 1..Len(ws) : Space \notin Range1(ws[i])
     /\ \A p \in pairs : Shorter(p[1], p[2]) >= 3 /\ Agree(p[1], p[2]) <= Shorter(p[1], p[2])
     \* an exact word always qualifies with a full share
     /\ \A w \in Range1(ws) : Len(w) >= 3 => (Qualifies(w, w) /\ Agree(w, w) = Shorter(w, w))
     \* up to four characters, only a full match of the shorter one qualifies
     /\ \A p \in pairs : Shorter(p[1], p[2]) <= 5 => Agree(p[1], p[2]) = Shorter(p[1], p[2])

EmitCase == PrintT(<<"CASE", ToJson([tags |-> <<t, Fixed>>, q |-> s])>>)
=============================================================================
