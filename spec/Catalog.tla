------------------------------ MODULE Catalog ------------------------------
(***************************************************************************)
(* What indexing makes of a catalogue: a sequence of records               *)
(*   [desc, title, vendor, id : text, tags : Seq(text),                    *)
(*    opts : Seq([name : text, values : Seq(text)]),                       *)
(*    price : Nat (thousandths), images : Seq(text),                        *)
(*    feats : Seq([k : name, c : name as text, v : value])]                *)
(* feats are further features, which files may hold and no catalogue gives: *)
(* v is <<"i", hi, lo>> (the number hi * 65536 + lo), <<"f", thousandths>>   *)
(* or <<"s", text>>.  Each is a                                            *)
(* column of the first so many products.                                   *)
(* Products are numbered from 1 here, from 0 in the code.                  *)
(***************************************************************************)
EXTENDS NGram

DescLimit == 100

(* Elements of a sequence, each once, in order of first appearance *)
Distinct(s) == FoldLeft(LAMBDA acc, x : IF \E i \in 1..Len(acc) : acc[i] = x THEN acc ELSE Append(acc, x), <<>>, s)

Feed(p) == Lower(p.desc \o p.title \o p.vendor)
Feeds(cat) == TLCEval([i \in 1..Len(cat) |-> Feed(cat[i])])

Vendors(cat) == Distinct([i \in 1..Len(cat) |-> cat[i].vendor])

TagSet(cat) == UNION {Range1(cat[i].tags) : i \in 1..Len(cat)}
TagMembers(cat, t) == {i \in 1..Len(cat) : \E k \in 1..Len(cat[i].tags) : cat[i].tags[k] = t}
(* as stored: ascending product numbers, once per listing *)
TagListing(cat, t) ==
  Concat([i \in 1..Len(cat) |->
     [k \in 1..Cardinality({j \in 1..Len(cat[i].tags) : cat[i].tags[j] = t}) |-> i]])

AllOpts(cat) == Concat([i \in 1..Len(cat) |-> cat[i].opts])
CategoryNames(cat) == LET all == TLCEval(AllOpts(cat)) IN Distinct([k \in 1..Len(all) |-> all[k].name])
OptionNames(cat, name) ==
  LET mine == SelectSeq(AllOpts(cat), LAMBDA o : o.name = name)
  IN Distinct(Concat([k \in 1..Len(mine) |-> mine[k].values]))
OptionMembers(cat, name, value) ==
  {i \in 1..Len(cat) : \E k \in 1..Len(cat[i].opts) :
      cat[i].opts[k].name = name /\ \E j \in 1..Len(cat[i].opts[k].values) : cat[i].opts[k].values[j] = value}
Categories(cat) ==
  LET names == TLCEval(CategoryNames(cat))
  IN TLCEval([k \in 1..Len(names) |->
       LET opts == TLCEval(OptionNames(cat, names[k]))
       IN [name |-> names[k],
           opts |-> [j \in 1..Len(opts) |-> [name |-> opts[j], members |-> OptionMembers(cat, names[k], opts[j])]]]])

(* Sort orders: position (from 0) of every product *)
OrderNames == {"Alphabetical", "Price low to high", "Price high to low"}
(* what an order goes by, of every product *)
Keys(cat, order) == IF order = "Alphabetical" THEN [i \in 1..Len(cat) |-> cat[i].title]
                    ELSE [i \in 1..Len(cat) |-> Money(cat[i].price)]
KeyBefore(order, x, y) ==
  CASE order = "Alphabetical" -> LexLT(x, y)
    [] order = "Price low to high" -> NumLT(x, y)
    [] order = "Price high to low" -> NumLT(y, x)
Before(cat, order, i, j) == KeyBefore(order, Keys(cat, order)[i], Keys(cat, order)[j])    \* by key alone
Positions(cat, order) ==
  With(TLCEval(Keys(cat, order)), LAMBDA key :
    [i \in 1..Len(cat) |->
       Cardinality({j \in 1..Len(cat) : KeyBefore(order, key[j], key[i]) \/ (j < i /\ ~KeyBefore(order, key[i], key[j]))})])

(* The same by sorting, for long catalogues *)
PositionsFast(cat, order) ==
  With(TLCEval(Keys(cat, order)), LAMBDA key :
  With(SortSeq([i \in 1..Len(cat) |-> <<key[i], i>>],
               LAMBDA x, y : KeyBefore(order, x[1], y[1]) \/ (x[2] < y[2] /\ ~KeyBefore(order, y[1], x[1]))),
       LAMBDA s :
  With(SortSeq([k \in 1..Len(cat) |-> <<s[k][2], k - 1>>], LAMBDA x, y : x[1] < y[1]),
       LAMBDA inv : [i \in 1..Len(cat) |-> inv[i][2]])))

(* Features: price of every product; image of those that have one *)
HasImage(p) == p.images # <<>>
ImageOf(p) == p.images[1]
HasFeature(p, key) == \E j \in 1..Len(p.feats) : p.feats[j].k = key
FeatureOf(p, key) == p.feats[CHOOSE j \in 1..Len(p.feats) : p.feats[j].k = key].v
(* the columns there are: the first product has them all *)
Columns(cat) == IF cat = <<>> THEN <<>> ELSE [j \in 1..Len(cat[1].feats) |-> [k |-> cat[1].feats[j].k, c |-> cat[1].feats[j].c]]
Column(cat, key) == LET have == SelectSeq(cat, LAMBDA p : HasFeature(p, key)) IN [i \in 1..Len(have) |-> FeatureOf(have[i], key)]

(* The number written by the trailing digits of an id, as its digits without *)
(* leading zeros                                                             *)
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN StripZeros(Tail(s)) ELSE s
TrailingDigits(s) ==
  LET starts == {i \in 1..(Len(s) + 1) : \A j \in i..Len(s) : IsDigit(s[j])}
      first == CHOOSE i \in starts : \A j \in starts : i <= j
      run == SubSeq(s, first, Len(s))
  IN IF run = <<>> THEN <<48>> ELSE StripZeros(run)

(* The complete index of a catalogue *)
IndexOf(cat, n) ==
  [cat |-> cat, n |-> n,
   forest |-> Forest(Feeds(cat), n), total |-> TotalChars(Feeds(cat)),
   posts |-> PostTree(Feeds(cat), n),
   cats |-> Categories(cat)]
=============================================================================
