------------------------------ MODULE Observe ------------------------------
(***************************************************************************)
(* What must be seen when the parts of a built or loaded index are looked  *)
(* at through the library interface.  Numbers in observations are the      *)
(* code's, from 0.                                                         *)
(***************************************************************************)
EXTENDS Engine, Codec

Say(what) == PrintT(<<"MISMATCH", what>>)
Must(what, cond) == IF cond THEN TRUE ELSE Say(what) /\ FALSE

(* Products: sequence of [title, desc, id, vendor, price, image, no, feats] *)
SeenAs(v) == IF v[1] = "f" THEN <<"f">> \o Money(v[2]) ELSE v
ProductsOk(cat, ps, shortened) ==
  /\ Must("number of products", Len(ps) = Len(cat))
  /\ \A i \in 1..Len(cat) :
       /\ Must(<<"title", i>>, ps[i].title = cat[i].title)
       /\ Must(<<"id", i>>, ps[i].id = cat[i].id)
       /\ Must(<<"vendor", i>>, ps[i].vendor = cat[i].vendor)
       /\ Must(<<"description", i>>, ps[i].desc = IF shortened THEN ShortenFast(cat[i].desc, DescLimit) ELSE cat[i].desc)
       /\ Must(<<"price", i>>, ps[i].price = Money(cat[i].price))
       /\ Must(<<"image", i>>, IF HasImage(cat[i]) THEN ps[i].image = <<ImageOf(cat[i])>>
                               ELSE ps[i].image \in {<<>>, <<<<>>>>})
       /\ Must(<<"number", i>>, ps[i].no = i - 1)
       /\ \A k \in 1..Len(ps[i].feats) :
            LET key == ps[i].feats[k][1]
            IN Must(<<"feature", i, key>>, ps[i].feats[k][2] = IF HasFeature(cat[i], key) THEN <<SeenAs(FeatureOf(cat[i], key))>> ELSE <<>>)

(* Tree nodes: <<char, weight in millionths, children most frequent first, lookup>>, *)
(* lookup: sequence of <<key, index of that child in children or -1>>                *)
RECURSIVE KidsOk(_, _, _)
KidsOk(obs, kids, parent) ==
  LET cs == [k \in 1..Len(obs) |-> obs[k][1]]
  IN /\ Must(<<"continuations", cs>>, Range1(cs) = DOMAIN kids /\ Len(cs) = Cardinality(DOMAIN kids))
     /\ \A k \in 1..Len(obs) :
          /\ Must(<<"weight", cs[k], obs[k][2]>>, Near(obs[k][2], MicroOf(kids[cs[k]].n, parent), 1))
          /\ LET lk == obs[k][4]
             IN Must(<<"lookup", cs[k]>>,
                  /\ Len(lk) = Len(obs[k][3])
                  /\ \A j \in 1..Len(lk) : lk[j][2] \in 0..(Len(obs[k][3]) - 1) /\ obs[k][3][lk[j][2] + 1][1] = lk[j][1]
                  /\ Cardinality({lk[j][1] : j \in 1..Len(lk)}) = Len(lk))
          /\ KidsOk(obs[k][3], kids[cs[k]].kids, kids[cs[k]].n)
Sorted(obs, kids) == \A k \in 1..(Len(obs) - 1) : kids[obs[k][1]].n >= kids[obs[k + 1][1]].n
RECURSIVE AllSorted(_, _)
AllSorted(obs, kids) ==
  \A k \in 1..Len(obs) :
     /\ Must(<<"order of continuations", obs[k][1]>>, Sorted(obs[k][3], kids[obs[k][1]].kids))
     /\ AllSorted(obs[k][3], kids[obs[k][1]].kids)

TreeOk(ix, obs) == KidsOk(obs, ix.forest, ix.total) /\ AllSorted(obs, ix.forest)

(* Suggested continuation of a first character *)
RECURSIVE ChainFrom(_, _)
ChainFrom(node, chain) ==
  IF chain = <<>> THEN DOMAIN node.kids = {}
  ELSE /\ chain[1] \in DOMAIN node.kids
       /\ \A c \in DOMAIN node.kids : node.kids[c].n <= node.kids[chain[1]].n
       /\ ChainFrom(node.kids[chain[1]], Tail(chain))
ChainOk(ix, c, chain) ==
  IF c \notin DOMAIN ix.forest THEN chain = <<>>
  ELSE chain # <<>> /\ chain[1] = c /\ ChainFrom(ix.forest[c], Tail(chain))

(* Postings: sequence of <<gram, product numbers>> *)
PostsOk(ix, obs) ==
  LET P == Len(ix.cat)
  IN /\ \A k \in 1..Len(obs) :
          /\ Must(<<"gram length", obs[k][1]>>, Len(obs[k][1]) = ix.n)
          /\ Must(<<"posting", obs[k]>>,
               LET s == BagToSeq(Posting(ix.posts, obs[k][1], P))
               IN s # <<>> /\ obs[k][2] = [j \in 1..Len(s) |-> s[j] - 1])
     /\ Must("grams twice", Cardinality({obs[k][1] : k \in 1..Len(obs)}) = Len(obs))
     /\ Must(<<"number of grams", Len(obs), KeptCount(ix.posts, ix.n, P)>>, Len(obs) = KeptCount(ix.posts, ix.n, P))

(* Categories: sequence of [name, opts : Seq([name, members])] *)
CatsOk(ix, obs) ==
  /\ Must("categories", [k \in 1..Len(obs) |-> obs[k].name] = [k \in 1..Len(ix.cats) |-> ix.cats[k].name])
  /\ \A k \in 1..Len(obs) :
       /\ Must(<<"options of category", k>>,
               [j \in 1..Len(obs[k].opts) |-> obs[k].opts[j].name] = [j \in 1..Len(ix.cats[k].opts) |-> ix.cats[k].opts[j].name])
       /\ \A j \in 1..Len(obs[k].opts) :
            Must(<<"members of option", k, j>>,
                 {m + 1 : m \in Range1(obs[k].opts[j].members)} = ix.cats[k].opts[j].members)

TagsOk(cat, tags, obs) ==
  /\ Must("tags", [k \in 1..Len(obs) |-> obs[k].name] = tags)
  /\ \A k \in 1..Len(obs) :
       Must(<<"members of tag", k>>, {m + 1 : m \in Range1(obs[k].members)} = TagMembers(cat, tags[k]))

OrdersOk(cat, obs) ==
  /\ Must("order names", {obs[k].name : k \in 1..Len(obs)} = OrderNames /\ Len(obs) = Cardinality(OrderNames))
  /\ \A k \in 1..Len(obs) : Must(<<"order", obs[k].name>>, obs[k].pos = Positions(cat, obs[k].name))

(* A loaded index compared with one just made of another catalogue: equal   *)
(* only where nothing that is kept differs.  Of descriptions a beginning    *)
(* may have been kept.                                                      *)
Begins(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
SameDesc(d, kept) == (d = <<>>) = (kept = <<>>) /\ (Begins(d, kept) \/ Begins(kept, d))
SameProduct(p, q) == p.title = q.title /\ p.vendor = q.vendor /\ p.id = q.id /\ SameDesc(p.desc, ShortenFast(q.desc, DescLimit))
CompareOk(ix, other, products, index, classic) ==
  LET cat == ix.cat
  IN /\ \A k \in 1..Len(products) :
          /\ Must(<<"products that differ compare equal", k>>, products[k][1] \/ products[k][2] => SameProduct(other[k], cat[k]))
          /\ Must(<<"the same product compares unequal", k>>, other[k] = cat[k] /\ Vendors(other) = Vendors(cat) => products[k] = <<TRUE, TRUE>>)
     /\ Must("indexes of different products compare equal",
          index => /\ Len(cat) = Len(other)
                   /\ \A k \in 1..Len(cat) :
                        /\ SameProduct(other[k], cat[k])
                        /\ Money(other[k].price) = Money(cat[k].price)
                        /\ (HasImage(other[k]) /\ HasImage(cat[k]) => ImageOf(other[k]) = ImageOf(cat[k])))
     /\ Must("categories, tags or orders that differ compare equal",
          classic => /\ Categories(other) = ix.cats
                     /\ TagSet(other) = TagSet(cat)
                     /\ \A t \in TagSet(cat) : TagMembers(other, t) = TagMembers(cat, t)
                     /\ \A o \in OrderNames : Positions(other, o) = Positions(cat, o))

---------------------------------------------------------------------------
(* A JSON text given to the indexer, and all that is in the index it made:  *)
(* ok is "yes", "no" or "crash"                                             *)
J == INSTANCE JsonText
ReadingOk(text, ok, ps, cats, names, tags, orders) ==
  With(J!Reading(text), LAMBDA r :
    CASE r[1] = "refused" -> Must("refusal of a text that is no catalogue", ok = "no")
      [] r[1] = "open" -> TRUE
      [] r[1] = "records" ->
           /\ Must("acceptance of a catalogue", ok = "yes")
           /\ Must("records indexed", Len(ps) = Len(r[2]) /\ {ps[k].id : k \in 1..Len(ps)} = {r[2][k].id : k \in 1..Len(r[2])})
           /\ With([k \in 1..Len(ps) |-> r[2][CHOOSE i \in 1..Len(ps) : r[2][i].id = ps[k].id]], LAMBDA cat :
                /\ ProductsOk(cat, ps, TRUE)
                /\ With(IndexOf(cat, 0), LAMBDA ix : CatsOk(ix, cats))
                /\ Must("tags of the index", TagOrderOk(cat, names)) /\ TagsOk(cat, names, tags)
                /\ OrdersOk(cat, orders)))
(* Texts as the value of a field nobody asked for: <<text, accepted>> *)
FillersOk(ws) ==
  \A k \in 1..Len(ws) :
    With(<<123, 34, 120, 34, 58>> \o ws[k][1] \o <<125>>, LAMBDA t : J!Odd(t) \/ Must(<<"well-formed", ws[k]>>, (J!ReadJson(t) # <<>>) = ws[k][2]))

---------------------------------------------------------------------------
(* One window corrected: res = <<>> or <<gram, millionths>> *)
CorrectedOk(ix, win, res) ==
  LET best == Corrections(ix.forest, win)
  IN IF best = {} THEN Must(<<"correction of", win, "expected none">>, res = <<>>)
     ELSE Must(<<"correction of", win, "expected one of", best>>,
            res # <<>> /\ \E x \in best : x.g = res[1] /\ Near(res[2], Micro(x.w), 2))

(* A whole search through the library: chosen per window, res = sequence of *)
(* <<product, millionths, thousandths>> in result order                     *)
RankedOk(ix, q, chosen, res) ==
  With([k \in 1..Len(chosen) |-> IF chosen[k] = <<>> THEN <<>> ELSE <<chosen[k][1]>>], LAMBDA grams :
  With(TLCEval(BestOf(ix, Windows(q, ix.n))), LAMBDA best :
  With(TLCEval(Hits(ix, best, grams)), LAMBDA hits :
  With(TLCEval(<<Found(hits), IF Coarse(hits) THEN 3 ELSE 2>>), LAMBDA fu : LET found == fu[1]  unit == fu[2] IN
     /\ Must("corrections", ChosenOk(best, grams))
     /\ Must(<<"products found, expected", found>>,
             {res[k][1] + 1 : k \in 1..Len(res)} = found /\ Len(res) = Cardinality(found))
     /\ \A k \in 1..Len(res) :
          LET i == res[k][1] + 1
          IN Must(<<"confidence of product", i, res[k][unit], Score(hits, i)>>,
                  Near(res[k][unit], Score(hits, i), Slack(Score(hits, i), Terms(hits, i))))
     /\ \A k \in 1..(Len(res) - 1) : Must(<<"descending", k>>, res[k][unit] >= res[k + 1][unit])))))

---------------------------------------------------------------------------
(* A file decoded by the specification's own reader says what the index is *)
WeightNear(bytes, a, b) ==     \* bytes of a float in (0, 1], in 1/32768
  LET e == bytes[1] * 2 + bytes[2] \div 128
      m == 32768 + (bytes[2] % 128) * 256 + bytes[3]
      RECURSIVE Half(_, _)
      Half(x, k) == IF k = 0 THEN x ELSE Half(x \div 2, k - 1)
  IN /\ e <= 127
     /\ Near(IF 127 - e > 16 THEN 0 ELSE Half(m, 127 - e), (a * 32768) \div b, 2)

RECURSIVE NodesOk(_, _, _)
NodesOk(nodes, kids, parent) ==
  /\ {nodes[k][1] : k \in 1..Len(nodes)} = DOMAIN kids
  /\ Len(nodes) = Cardinality(DOMAIN kids)
  /\ \A k \in 1..(Len(nodes) - 1) : kids[nodes[k][1]].n >= kids[nodes[k + 1][1]].n
  /\ \A k \in 1..Len(nodes) :
       /\ WeightNear(nodes[k][2], kids[nodes[k][1]].n, parent)
       /\ NodesOk(nodes[k][3], kids[nodes[k][1]].kids, kids[nodes[k][1]].n)

AsBytes(names) == [k \in 1..Len(names) |-> Utf8Bytes(names[k])]
Ids0(S) == [k \in 1..Cardinality(S) |-> SetToSortSeq(S, <)[k] - 1]

(* a feature value as the reader sees it *)
Stored(v) == CASE v[1] = "s" -> Utf8Bytes(v[2]) [] v[1] = "f" -> MoneyBytes(v[2]) [] v[1] = "i" -> DigitsOf(v[2], v[3])

FileSays(f, ix, tags, onames) ==
  LET cat == ix.cat
      P == Len(cat)
      Feat(key) == LET s == {k \in 1..Len(f.features) : f.features[k][1] = Utf8Bytes(key)}
                   IN IF s = {} THEN <<>> ELSE f.features[CHOOSE k \in s : TRUE][2]
      price == Feat(<<112,114,105,99,101>>)
      image == Feat(<<105,109,97,103,101,95,117,114,108>>)
  IN /\ Must("file: vendors", f.vendors = AsBytes(Vendors(cat)))
     /\ Must("file: products", Len(f.products) = P)
     /\ \A i \in 1..P : Must(<<"file: product", i>>,
          /\ f.products[i].desc = Utf8Bytes(ShortenFast(cat[i].desc, DescLimit))
          /\ f.products[i].title = Utf8Bytes(cat[i].title)
          /\ f.products[i].id = Utf8Bytes(cat[i].id)
          /\ f.vendors[f.products[i].vendor + 1] = Utf8Bytes(cat[i].vendor))
     /\ Must("file: prices", P > 0 => price = <<1, [i \in 1..P |-> MoneyBytes(cat[i].price)]>>)
     /\ Must("file: images", \A i \in 1..P : HasImage(cat[i]) =>
           image[1] = 0 /\ Len(image[2]) >= i /\ image[2][i] = Utf8Bytes(ImageOf(cat[i])))
     /\ Must("file: images of products without", \A i \in 1..P : ~HasImage(cat[i]) /\ image # <<>> =>
           image[1] = 0 /\ (Len(image[2]) >= i => image[2][i] = <<>>))
     /\ \A k \in 1..Len(Columns(cat)) :
           LET col == Column(cat, Columns(cat)[k].k)
           IN Must(<<"file: feature", Columns(cat)[k].k>>, Feat(Columns(cat)[k].c) = <<KindCode(col[1]), [i \in 1..Len(col) |-> Stored(col[i])]>>)
     /\ Must("file: features", {f.features[k][1] : k \in 1..Len(f.features)} \subseteq
           {Utf8Bytes(<<112,114,105,99,101>>), Utf8Bytes(<<105,109,97,103,101,95,117,114,108>>)} \cup {Utf8Bytes(Columns(cat)[k].c) : k \in 1..Len(Columns(cat))})
     /\ Must("file: features twice", Cardinality({f.features[k][1] : k \in 1..Len(f.features)}) = Len(f.features))
     /\ Must("file: roots", \A k \in 1..Len(f.roots) : f.roots[k][1] = f.roots[k][2][1])
     /\ Must("file: root set", {f.roots[k][1] : k \in 1..Len(f.roots)} = DOMAIN ix.forest /\ Len(f.roots) = Cardinality(DOMAIN ix.forest))
     /\ Must("file: tree", \A k \in 1..Len(f.roots) :
          /\ WeightNear(f.roots[k][2][2], ix.forest[f.roots[k][1]].n, ix.total)
          /\ NodesOk(f.roots[k][2][3], ix.forest[f.roots[k][1]].kids, ix.forest[f.roots[k][1]].n))
     /\ PostsOk(ix, f.posts)
     /\ Must("file: categories",
          [k \in 1..Len(f.cats) |-> f.cats[k]] =
          [k \in 1..Len(ix.cats) |->
             [excl |-> 0, name |-> Utf8Bytes(ix.cats[k].name),
              opts |-> [j \in 1..Len(ix.cats[k].opts) |->
                 [name |-> Utf8Bytes(ix.cats[k].opts[j].name), members |-> Ids0(ix.cats[k].opts[j].members)]]]])
     /\ Must("file: tag names", [k \in 1..Len(f.tags) |-> f.tags[k].name] = AsBytes(tags))
     /\ Must("file: tag members", \A k \in 1..Len(tags) :
          {m + 1 : m \in Range1(f.tags[k].members)} = TagMembers(cat, tags[k]))
     /\ Must("file: orders", Len(f.orders) = Len(onames.names) /\ \A k \in 1..Len(onames.names) :
          \E j \in 1..Len(f.orders) :
             /\ f.orders[j][1] = onames.codes[k]
             /\ f.orders[j][2] = Positions(cat, onames.names[k]))

OrderNamesCoded ==
  [names |-> <<"Alphabetical", "Price low to high", "Price high to low">>,
   codes |-> << <<65,108,112,104,97,98,101,116,105,99,97,108>>,
                <<80,114,105,99,101,32,108,111,119,32,116,111,32,104,105,103,104>>,
                <<80,114,105,99,101,32,104,105,103,104,32,116,111,32,108,111,119>> >>]

---------------------------------------------------------------------------
(* Single values through the codec.  A value is tagged: nat (base-128      *)
(* digits), chr, str, bool, f32 (4 bytes), u8, list, arr, map, ids.        *)
RECURSIVE EncV(_)
EncV(v) ==
  CASE v[1] = "nat" -> EncDigits(v[2])
    [] v[1] = "chr" -> EncNat(v[2])
    [] v[1] = "str" -> EncText(v[2])
    [] v[1] = "bool" -> EncBool(v[2])
    [] v[1] = "f32" -> v[2]
    [] v[1] = "u8" -> <<v[2]>>
    [] v[1] \in {"list", "arr"} -> EncList([k \in 1..Len(v[2]) |-> EncV(v[2][k])])
    [] v[1] = "ids" -> EncIds(SortSeq(v[2], <))

WireOk(v, bytes) ==
  IF v[1] = "map"
  THEN \E pi \in SetToSeqs(1..Len(v[2])) :
         bytes = EncList([k \in 1..Len(v[2]) |-> EncV(v[2][pi[k]][1]) \o EncV(v[2][pi[k]][2])])
  ELSE bytes = EncV(v)

SameValue(v, back) ==
  IF v[1] = "map" THEN back # <<>> /\ {v[2][k] : k \in 1..Len(v[2])} = {back[1][2][k] : k \in 1..Len(back[1][2])}
                      /\ Len(back[1][2]) = Len(v[2])
  ELSE IF v[1] = "ids" THEN back = <<<<"ids", SortSeq(v[2], <)>>>>
  ELSE back = <<v>>
=============================================================================
