-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text as the system sees it: a sequence of Unicode code points.  UTF-8   *)
(* lengths and bytes, lower-casing, lexicographic order, shortening.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

(* Op(v), with v evaluated once (TLC evaluates what a LET or an argument     *)
(* stands for at each use, where states are being generated)                *)
With(v, Op(_)) == FoldLeft(LAMBDA x, k : Op(x), v, <<1>>)

Range1(s) == {s[i] : i \in 1..Len(s)}

Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

Concat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)

MapSeq(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]

Utf8Bytes(s) == Concat(MapSeq(Utf8, s))
ByteLen(s) == FoldLeft(LAMBDA acc, c : acc + Utf8Len(c), 0, s)

(* Lower-casing of the characters the drivers use: ASCII, Latin-1, Greek,  *)
(* Cyrillic capitals, and two characters with unusual lower-case forms.    *)
LowerOf(c) ==
  IF c \in 65..90 THEN <<c + 32>>
  ELSE IF c \in (192..214) \cup (216..222) THEN <<c + 32>>
  ELSE IF c = 304 THEN <<105, 775>>                 \* I with dot above: two characters
  ELSE IF c = 7838 THEN <<223>>                     \* capital sharp s
  ELSE IF c \in 913..929 \cup 931..939 THEN <<c + 32>>
  ELSE IF c \in 1040..1071 THEN <<c + 32>>
  ELSE <<c>>

(* one character each, but for the one that becomes two *)
Lower(s) == IF \E i \in 1..Len(s) : s[i] = 304 THEN Concat(MapSeq(LowerOf, s))
            ELSE TLCEval([i \in 1..Len(s) |-> LowerOf(s[i])[1]])

(* Lexicographic order by code point, which is also the order of the UTF-8 bytes. *)
RECURSIVE LexLTAt(_, _, _)
LexLTAt(s, t, i) ==
  IF i > Len(t) THEN FALSE
  ELSE IF i > Len(s) THEN TRUE
  ELSE IF s[i] # t[i] THEN s[i] < t[i]
  ELSE LexLTAt(s, t, i + 1)
LexLT(s, t) == LexLTAt(s, t, 1)

(* Shortening under a byte limit.  Offset(s, i): byte offset where the i-th *)
(* character starts.                                                        *)
Offset(s, i) == ByteLen(SubSeq(s, 1, i - 1))

Space == 32

Shorten(s, limit) ==
  IF s = <<>> \/ Offset(s, Len(s)) <= limit THEN s
  ELSE LET fits == {i \in 1..Len(s) : Offset(s, i) <= limit}     \* characters starting in the limit
           spaces == {i \in fits \ {1} : s[i] = Space}          \* a cut at the very beginning would leave nothing
       IN IF spaces # {} THEN SubSeq(s, 1, (CHOOSE i \in spaces : \A j \in spaces : j <= i) - 1)
          ELSE SubSeq(s, 1, Cardinality(fits))

(* Same, for long texts: linear in the text. *)
ShortenFast(s, limit) ==
  LET f == FoldLeft(LAMBDA st, c :
                IF st.done THEN st
                ELSE IF st.off > limit THEN [st EXCEPT !.done = TRUE]
                ELSE [st EXCEPT !.i = @ + 1, !.off = @ + Utf8Len(c),
                                !.sp = IF c = Space /\ st.i > 0 THEN st.i ELSE @],
             [i |-> 0, off |-> 0, sp |-> -1, done |-> FALSE], s)
  IN IF ~f.done THEN s ELSE SubSeq(s, 1, IF f.sp >= 0 THEN f.sp ELSE f.i)

IsDigit(c) == c \in 48..57
=============================================================================
