------------------------------ MODULE MC_Codec ------------------------------
(***************************************************************************)
(* The byte format: every value of a small but edge-rich set, and the file *)
(* of every small catalogue, is read back exactly, whatever follows; every *)
(* strict prefix is refused (C02, C03, C19 at the design level).           *)
(***************************************************************************)
EXTENDS Observe, Json
CONSTANTS N, MaxRecords, Numbers, Emit

VARIABLE cat
mcvars == <<cat, vars>>

A == <<97>>
B == <<98>>
O(n, vs) == [name |-> n, values |-> vs]
R(desc, title, price, image, tags, opts) ==
  [desc |-> desc, title |-> title, vendor |-> title, id |-> <<49>>, tags |-> tags, opts |-> opts, price |-> price, images |-> image, feats |-> <<>>]
Records ==
  { R(<<>>, <<>>, 0, <<>>, <<>>, <<>>),
    R(A, B, 50, <<A>>, <<A>>, <<O(A, <<A, B>>)>>),
    R(<<97, 230>>, <<128125>>, 10230, <<>>, <<A, <<>>, A>>, <<O(B, <<A>>), O(A, <<<<>>>>)>>),
    R([i \in 1..130 |-> IF i % 2 = 0 THEN 97 ELSE 98], A, 40, <<<<>>, B>>, <<B>>, <<O(<<>>, <<>>)>>) }

MCInit == cat = <<>> /\ Init
MCNext == /\ Len(cat) < MaxRecords /\ \E r \in Records : cat' = Append(cat, r)
          /\ UNCHANGED vars
MCSpec == MCInit /\ [][MCNext]_mcvars

Ix0 == IndexOf(cat, N)
TagSeq == SetToSeq(TagSet(cat))

FilesExact ==
  \A rev \in BOOLEAN :
    LET ix == TLCEval(Ix0)
        b == TLCEval(EncFile(ix, TagSeq, rev, OrderNamesCoded))
        d == TLCEval(DecodeFile(b))
        e == DecodeFile(b \o <<0, 255, 128, 7>>)
    IN /\ d.ok /\ d.next = Len(b) + 1
       /\ FileSays(d, ix, TagSeq, OrderNamesCoded)
       /\ e = d                                              \* whatever follows
       /\ \A cut \in 0..(Len(b) - 1) : ~DecodeFile(SubSeq(b, 1, cut)).ok

(* Values: texts over characters of every UTF-8 length, numbers around every boundary *)
Points == {0, 97, 127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111}
NumbersExact ==
  \A n \in Numbers :
    LET b == EncNat(n) IN
    /\ DecNat(b \o <<200, 5>>, 1) = <<n, Len(b) + 1>>
    /\ \A cut \in 0..(Len(b) - 1) : DecNat(SubSeq(b, 1, cut), 1)[2] = 0
    /\ Len(b) = IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2 ELSE IF n < 2097152 THEN 3 ELSE IF n < 268435456 THEN 4 ELSE 5
TextsExact ==
  \A s \in UNION {[1..k -> Points] : k \in 0..2} :
    LET b == EncText(s) IN
    /\ DecText(b \o <<1>>, 1) = <<Utf8Bytes(s), Len(b) + 1>>
    /\ ByteLen(s) = Len(Utf8Bytes(s))
    /\ \A cut \in 0..(Len(b) - 1) : DecText(SubSeq(b, 1, cut), 1)[2] = 0
(* UTF-8 is injective and keeps the order of code points *)
Utf8Exact == \A c, d \in Points : /\ (Utf8(c) = Utf8(d)) <=> (c = d)
                                  /\ LexLT(Utf8(c), Utf8(d)) <=> c < d
(* the sizes of long values are those of their encodings *)
ManyExact ==
  \A n \in {0, 1, 2, 127, 128, 129, 300, 16385} :
    LET Below(k) == [i \in 1..k |-> i - 1]
        Total(S(_)) == FoldLeft(LAMBDA acc, i : acc + S(i), 0, Below(n))
    IN /\ SizeOfMany("list", n, 1) = Len(EncNat(n)) + Total(LAMBDA i : Len(EncNat(i)))
       /\ SizeOfMany("map", n, 1) = Len(EncNat(n)) + Total(LAMBDA i : 2 * Len(EncNat(i)))
       /\ n <= 300 => /\ SizeOfMany("text", n, 1) = Len(EncText([i \in 1..n |-> 120]))
                      /\ \A step \in {0, 1, 127, 128} : SizeOfMany("ids", n, step) = Len(EncIds([i \in 1..n |-> (i - 1) * step]))
IdsExact ==
  \A ids \in UNION {[1..k -> {0, 1, 127, 128, 300}] : k \in 0..3} :
    LET s == SortSeq(ids, <)
        b == EncIds(s)
    IN /\ DecIds(b \o <<9>>, 1) = <<s, Len(b) + 1>>
       /\ \A cut \in 0..(Len(b) - 1) : DecIds(SubSeq(b, 1, cut), 1)[2] = 0
(* single precision: exact for quarters, and the reader's view of weights *)
FloatsExact ==
  /\ F32Bytes(1, 1) = <<63, 128, 0, 0>> /\ F32Bytes(1, 3) = <<62, 170, 170, 171>> /\ F32Bytes(5, 4) = <<63, 160, 0, 0>>
  /\ F32Bytes(0, 4) = <<0, 0, 0, 0>> /\ F32Bytes(1, 10) = <<61, 204, 204, 205>> /\ F32Bytes(16777217, 1) = <<75, 128, 0, 0>>
  /\ \A a, b \in 1..12 : a <= b => WeightNear(F32Bytes(a, b), a, b)
  /\ NumberOf(5, 4) = <<0, 1, 268435456>> /\ NumberOf(16777217, 1) = <<256, 0, 0>>
  /\ MoneyBytes(199950) = <<67, 71, 243, 51>> /\ Money(199950) = <<0, 199, 1020051456>>
  /\ \A c \in {8, 9, 10, 990, 1000, 1010, 123456, 1048579, 15999999} : \A d \in c..(c + 3) :
        /\ NumLT(Money(c), Money(d)) <=> c < d
        /\ Cheaper(c, d) <=> c < d
  /\ ~Cheaper(400000000, 400000001) /\ ~Cheaper(400000000, 400000010) /\ Cheaper(400000000, 400000050)
Values == NumbersExact /\ TextsExact /\ Utf8Exact /\ IdsExact /\ ManyExact /\ FloatsExact
ValuesOnce == cat = <<>> => Values
NumberSet == (0..300) \cup {16383, 16384, 16385, 2097151, 2097152, 2097153, 268435455}

EmitCase == Emit => PrintT(<<"CASE", ToJson([n |-> N, cat |-> cat])>>)
=============================================================================
