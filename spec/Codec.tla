------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The byte format of index files.                                         *)
(*   integer  base-128 digits, least significant first, all but the last   *)
(*            with 128 added                                               *)
(*   text     byte length, UTF-8 bytes                                     *)
(*   list     length, elements       map   length, key value key value ... *)
(*   id list  length, smallest id, then differences                        *)
(*   char     its code point as integer     float  IEEE single, big endian *)
(* Encoders give byte sequences.  Decoders give <<value, next position>>   *)
(* with position 0 for failure.                                            *)
(***************************************************************************)
EXTENDS Catalog

(* ---- encoding ---- *)
RECURSIVE Digits128(_)
Digits128(n) == IF n < 128 THEN <<n>> ELSE <<n % 128>> \o Digits128(n \div 128)
EncDigits(ds) == [i \in 1..Len(ds) |-> ds[i] + (IF i < Len(ds) THEN 128 ELSE 0)]
EncNat(n) == EncDigits(Digits128(n))
EncText(s) == EncNat(ByteLen(s)) \o Utf8Bytes(s)
EncBool(b) == IF b THEN <<1>> ELSE <<0>>
EncList(encoded) == EncNat(Len(encoded)) \o Concat(encoded)
EncIds(ids) ==        \* ids: ascending sequence of naturals
  EncNat(Len(ids)) \o
  Concat([i \in 1..Len(ids) |-> EncNat(IF i = 1 THEN ids[1] ELSE ids[i] - ids[i - 1])])

(* the number hi * 65536 + lo *)
DigitsOf(hi, lo) ==
  LET rest == hi * 512 + lo \div 128
  IN IF rest = 0 THEN <<lo>> ELSE <<lo % 128>> \o Digits128(rest)

(* ---- decoding ---- *)
Fail == <<0, 0>>

DecDigits(b, p) ==      \* up to ten digits
  LET last == {k \in 1..10 : p + k - 1 <= Len(b) /\ b[p + k - 1] < 128}
  IN IF last = {} THEN Fail
     ELSE With(CHOOSE k \in last : \A j \in last : k <= j,
               LAMBDA n : <<[i \in 1..n |-> b[p + i - 1] % 128], p + n>>)

Value128(ds) == FoldLeft(LAMBDA v, d : 128 * v + d, 0, Reverse(ds))
DecNat(b, p) ==
  IF p = 0 THEN Fail
  ELSE LET r == DecDigits(b, p)
       IN IF r[2] = 0 \/ Len(r[1]) > 4 THEN Fail ELSE <<Value128(r[1]), r[2]>>
DecBytes(b, p, n) ==
  IF p = 0 \/ p + n - 1 > Len(b) THEN Fail ELSE <<SubSeq(b, p, p + n - 1), p + n>>
DecText(b, p) ==        \* as bytes
  LET n == DecNat(b, p) IN IF n[2] = 0 THEN Fail ELSE DecBytes(b, n[2], n[1])
DecByte(b, p) == IF p = 0 \/ p > Len(b) THEN Fail ELSE <<b[p], p + 1>>

(* n elements with decoder D *)
DecN(b, p, n, D(_, _)) ==
  IF p = 0 \/ n > Len(b) THEN Fail
  ELSE FoldLeft(LAMBDA st, k :
                  IF st[2] = 0 THEN st
                  ELSE LET r == D(b, st[2])
                       IN IF r[2] = 0 THEN Fail ELSE <<Append(st[1], r[1]), r[2]>>,
                <<<<>>, p>>, [i \in 1..n |-> i])
DecSeq(b, p, D(_, _)) ==
  LET n == DecNat(b, p) IN IF n[2] = 0 THEN Fail ELSE DecN(b, n[2], n[1], D)
Pair(b, p, D(_, _), E(_, _)) ==
  LET x == D(b, p)
      y == IF x[2] = 0 THEN Fail ELSE E(b, x[2])
  IN IF y[2] = 0 THEN Fail ELSE <<<<x[1], y[1]>>, y[2]>>
DecMap(b, p, D(_, _), E(_, _)) == DecSeq(b, p, LAMBDA c, q : Pair(c, q, D, E))

DecIds(b, p) ==
  LET r == DecSeq(b, p, DecNat)
  IN IF r[2] = 0 THEN Fail
     ELSE <<FoldLeft(LAMBDA acc, d : Append(acc, IF acc = <<>> THEN d ELSE acc[Len(acc)] + d), <<>>, r[1]), r[2]>>

DecF32(b, p) == DecBytes(b, p, 4)

RECURSIVE DecNode(_, _)
DecNode(b, p) ==        \* <<char, weight bytes, children>>
  LET c == DecNat(b, p)
      w == IF c[2] = 0 THEN Fail ELSE DecF32(b, c[2])
      k == IF w[2] = 0 THEN Fail ELSE DecSeq(b, w[2], LAMBDA d, q : DecNode(d, q))
  IN IF k[2] = 0 THEN Fail ELSE <<<<c[1], w[1], k[1]>>, k[2]>>

DecProduct(b, p) ==
  LET d == DecText(b, p)
      t == IF d[2] = 0 THEN Fail ELSE DecText(b, d[2])
      i == IF t[2] = 0 THEN Fail ELSE DecText(b, t[2])
      v == IF i[2] = 0 THEN Fail ELSE DecNat(b, i[2])
  IN IF v[2] = 0 THEN Fail ELSE <<[desc |-> d[1], title |-> t[1], id |-> i[1], vendor |-> v[1]], v[2]>>

DecFeature(b, p) ==
  LET t == DecByte(b, p)
      l == IF t[2] = 0 THEN Fail
           ELSE IF t[1] = 0 THEN DecSeq(b, t[2], DecText)
           ELSE IF t[1] = 1 THEN DecSeq(b, t[2], DecF32)
           ELSE IF t[1] = 2 THEN DecSeq(b, t[2], DecDigits)
           ELSE Fail
  IN IF l[2] = 0 THEN Fail ELSE <<<<t[1], l[1]>>, l[2]>>

DecGram(b, p) == DecSeq(b, p, DecNat)

DecOption(b, p) ==
  LET n == DecText(b, p)
      m == IF n[2] = 0 THEN Fail ELSE DecIds(b, n[2])
  IN IF m[2] = 0 THEN Fail ELSE <<[name |-> n[1], members |-> m[1]], m[2]>>
DecCategory(b, p) ==
  LET x == DecByte(b, p)
      n == IF x[2] = 0 THEN Fail ELSE DecText(b, x[2])
      o == IF n[2] = 0 THEN Fail ELSE DecSeq(b, n[2], DecOption)
  IN IF o[2] = 0 THEN Fail ELSE <<[excl |-> x[1], name |-> n[1], opts |-> o[1]], o[2]>>

DecodeFile(b) ==
  LET ve == DecSeq(b, 1, DecText)
      pr == IF ve[2] = 0 THEN Fail ELSE DecSeq(b, ve[2], DecProduct)
      fe == IF pr[2] = 0 THEN Fail ELSE DecMap(b, pr[2], DecText, DecFeature)
      ro == IF fe[2] = 0 THEN Fail ELSE DecMap(b, fe[2], DecNat, DecNode)
      po == IF ro[2] = 0 THEN Fail ELSE DecMap(b, ro[2], DecGram, DecIds)
      ca == IF po[2] = 0 THEN Fail ELSE DecSeq(b, po[2], DecCategory)
      ta == IF ca[2] = 0 THEN Fail ELSE DecSeq(b, ca[2], DecOption)
      od == IF ta[2] = 0 THEN Fail ELSE DecMap(b, ta[2], DecText, LAMBDA c, q : DecSeq(c, q, DecNat))
  IN IF od[2] = 0 THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, next |-> od[2], vendors |-> ve[1], products |-> pr[1], features |-> fe[1],
           roots |-> ro[1], posts |-> po[1], cats |-> ca[1], tags |-> ta[1], orders |-> od[1]]

(* Bytes of long values, without writing them: the numbers below n as list,  *)
(* as map from each to itself, n times the same letter, n multiples of step  *)
Past(n, k) == IF n > k THEN n - k ELSE 0
SumOfLengths(n) == n + Past(n, 128) + Past(n, 16384) + Past(n, 2097152)
SizeOfMany(kind, n, step) ==
  Len(EncNat(n)) + CASE kind = "list" -> SumOfLengths(n)
                     [] kind = "map" -> 2 * SumOfLengths(n)
                     [] kind = "text" -> n
                     [] kind = "ids" -> IF n = 0 THEN 0 ELSE 1 + (n - 1) * Len(EncNat(step))

---------------------------------------------------------------------------
(* The file of an index, with the given orders of tags and of map entries.  *)
(* Ord(S) lists a set in the order wanted.                                   *)
EncIdSet(S) == EncIds([k \in 1..Cardinality(S) |-> SetToSortSeq(S, <)[k] - 1])

ByCount(kids, Ord(_)) ==      \* characters, most frequent first
  LET s == Ord(DOMAIN kids) IN SortSeq(s, LAMBDA x, y : kids[x].n > kids[y].n)

RECURSIVE EncNode(_, _, _, _)
EncNode(c, node, parent, rev) ==
  LET order(S) == LET s == SetToSortSeq(S, <) IN IF rev THEN Reverse(s) ELSE s
      kids == ByCount(node.kids, order)
  IN EncNat(c) \o F32Bytes(node.n, parent)
     \o EncList([k \in 1..Len(kids) |-> EncNode(kids[k], node.kids[kids[k]], node.n, rev)])

RECURSIVE Grams(_, _)
Grams(tree, d) ==       \* all <<gram, bag>> of a posting tree
  IF d = 1 THEN {<<<<c>>, tree[c]>> : c \in DOMAIN tree}
  ELSE UNION {{<<<<c>> \o x[1], x[2]>> : x \in Grams(tree[c], d - 1)} : c \in DOMAIN tree}

EncOrders(cat, names) ==
  EncNat(Len(names.names)) \o
  Concat([k \in 1..Len(names.names) |->
     EncText(names.codes[k]) \o
     With(Positions(cat, names.names[k]), LAMBDA pos : EncList([i \in 1..Len(cat) |-> EncNat(pos[i])]))])

(* columns of features: text, float or integer *)
KindCode(v) == CASE v[1] = "s" -> 0 [] v[1] = "f" -> 1 [] v[1] = "i" -> 2
EncFeature(v) == CASE v[1] = "s" -> EncText(v[2]) [] v[1] = "f" -> MoneyBytes(v[2]) [] v[1] = "i" -> EncDigits(DigitsOf(v[2], v[3]))
EncColumn(name, col) == EncText(name) \o <<KindCode(col[1])>> \o EncList([i \in 1..Len(col) |-> EncFeature(col[i])])

EncFile(ix, tags, rev, onames) ==
  LET cat == ix.cat
      P == Len(cat)
      ven == Vendors(cat)
      VendorId(v) == (CHOOSE k \in 1..Len(ven) : ven[k] = v) - 1
      flip(s) == IF rev THEN Reverse(s) ELSE s
      feats == flip(<<EncText(<<105,109,97,103,101,95,117,114,108>>) \o <<0>>        \* image_url
                        \o EncList([i \in 1..P |-> EncText(IF HasImage(cat[i]) THEN ImageOf(cat[i]) ELSE <<>>)]),
                      EncText(<<112,114,105,99,101>>) \o <<1>>                       \* price
                        \o EncList([i \in 1..P |-> MoneyBytes(cat[i].price)])>>
                    \o [k \in 1..Len(Columns(cat)) |-> EncColumn(Columns(cat)[k].c, Column(cat, Columns(cat)[k].k))])
      roots == flip(SetToSortSeq(DOMAIN ix.forest, <))
      grams == flip(SetToSeq({x \in Grams(ix.posts, ix.n) : Kept(x[2], P)}))
      IdsOf(bag) == LET s == BagToSeq(bag) IN [k \in 1..Len(s) |-> s[k] - 1]
  IN EncList([k \in 1..Len(ven) |-> EncText(ven[k])])
     \o EncList([i \in 1..P |-> EncText(ShortenFast(cat[i].desc, DescLimit)) \o EncText(cat[i].title)
                                \o EncText(cat[i].id) \o EncNat(VendorId(cat[i].vendor))])
     \o (IF P = 0 THEN EncNat(0) ELSE EncList(feats))
     \o EncList([k \in 1..Len(roots) |-> EncNat(roots[k]) \o EncNode(roots[k], ix.forest[roots[k]], ix.total, rev)])
     \o EncList([k \in 1..Len(grams) |-> EncList([j \in 1..ix.n |-> EncNat(grams[k][1][j])]) \o EncIds(IdsOf(grams[k][2]))])
     \o EncList([k \in 1..Len(ix.cats) |->
           EncBool(FALSE) \o EncText(ix.cats[k].name)
           \o EncList([j \in 1..Len(ix.cats[k].opts) |->
                 EncText(ix.cats[k].opts[j].name) \o EncIdSet(ix.cats[k].opts[j].members)])])
     \o EncList([k \in 1..Len(tags) |->
           EncText(tags[k]) \o EncIds([j \in 1..Len(TagListing(cat, tags[k])) |-> TagListing(cat, tags[k])[j] - 1])])
     \o EncOrders(cat, [onames EXCEPT !.names = flip(@), !.codes = flip(@)])
=============================================================================
