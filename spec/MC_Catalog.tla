----------------------------- MODULE MC_Catalog -----------------------------
(***************************************************************************)
(* Every small catalogue, grown record by record: what indexing makes of   *)
(* it (categories, tags, orders, features, vendors), and what filters and  *)
(* orders do to any set of found products (C08-C12 at the design level).   *)
(***************************************************************************)
EXTENDS Engine, Json
CONSTANTS Records, MaxRecords, Emit

VARIABLE cat
mcvars == <<cat, vars>>
R(title, price, image, tags, opts) ==
  [desc |-> <<>>, title |-> title, vendor |-> title, id |-> <<>>, tags |-> tags, opts |-> opts, price |-> price, images |-> image, feats |-> <<>>]

A == <<97>>
B == <<98>>
O(n, vs) == [name |-> n, values |-> vs]
SmallRecords ==
  { R(<<>>, 40, <<>>, <<A>>, <<O(A, <<A>>)>>),
    R(A, 40, <<B>>, <<A, B>>, <<O(A, <<B, A>>), O(B, <<A>>)>>),
    R(A, 80, <<A, B>>, <<B, B>>, <<O(B, <<A, B, A>>)>>),
    R(B, 20, <<>>, <<>>, <<O(A, <<>>), O(A, <<B>>)>>),
    R(<<97, 97>>, 80, <<A>>, <<<<>>, A>>, <<>>) }
MoreRecords == SmallRecords \cup
  { R(B, 80, <<<<>>>>, <<B, A, B>>, <<O(<<>>, <<B, <<>>>>), O(A, <<A>>)>>),
    R(<<>>, 20, <<B, A>>, <<B>>, <<O(B, <<>>)>>) }

MCInit == cat = <<>> /\ Init
MCNext == /\ Len(cat) < MaxRecords /\ \E r \in Records : cat' = Append(cat, r)
          /\ UNCHANGED vars
MCSpec == MCInit /\ [][MCNext]_mcvars

P == 1..Len(cat)
Pos(o) == Positions(cat, o)

(* C09 *)
OrdersExact ==
  \A o \in OrderNames :
    LET pos == TLCEval(Pos(o)) IN
    /\ Range1(pos) = {i - 1 : i \in P}                                  \* every product exactly once
    /\ \A i, j \in P : (i < j /\ ~Before(cat, o, i, j) /\ ~Before(cat, o, j, i)) => pos[i] < pos[j]   \* ties stay
    /\ \A i, j \in P : Before(cat, o, i, j) => pos[i] < pos[j]
SortedAgrees == \A o \in OrderNames : PositionsFast(cat, o) = Positions(cat, o)
(* the two price orders are opposite but for ties *)
PricesOpposite == \A i, j \in P : cat[i].price # cat[j].price =>
   (Pos("Price low to high")[i] < Pos("Price low to high")[j]) # (Pos("Price high to low")[i] < Pos("Price high to low")[j])

(* C12 *)
Cs == Categories(cat)
NamesOnce == \A i, j \in 1..Len(Cs) : i # j => Cs[i].name # Cs[j].name
OptionsOnce == \A k \in 1..Len(Cs) : \A i, j \in 1..Len(Cs[k].opts) : i # j => Cs[k].opts[i].name # Cs[k].opts[j].name
Lists(i, n, v) == \E k \in 1..Len(cat[i].opts) : cat[i].opts[k].name = n /\ v \in Range1(cat[i].opts[k].values)
MembershipExact ==
  /\ {Cs[k].name : k \in 1..Len(Cs)} = UNION {{cat[i].opts[k].name : k \in 1..Len(cat[i].opts)} : i \in P}
  /\ \A k \in 1..Len(Cs) : \A j \in 1..Len(Cs[k].opts) :
       /\ Cs[k].opts[j].members # {}
       /\ \A i \in P : i \in Cs[k].opts[j].members <=> Lists(i, Cs[k].name, Cs[k].opts[j].name)
  /\ \A i \in P : \A k \in 1..Len(cat[i].opts) : \A v \in Range1(cat[i].opts[k].values) :
       \E c \in 1..Len(Cs) : Cs[c].name = cat[i].opts[k].name /\ \E j \in 1..Len(Cs[c].opts) : Cs[c].opts[j].name = v
TagsExact ==
  /\ \A t \in TagSet(cat) : TagMembers(cat, t) # {} /\ Range1(TagListing(cat, t)) = TagMembers(cat, t)
  /\ \A i \in P : \A t \in TagSet(cat) : i \in TagMembers(cat, t) <=> t \in Range1(cat[i].tags)
VendorsExact == Range1(Vendors(cat)) = {cat[i].vendor : i \in P} /\ \A i, j \in 1..Len(Vendors(cat)) : i # j => Vendors(cat)[i] # Vendors(cat)[j]

(* first appearance: a longer catalogue only appends *)
Grows == [][
  LET old == Categories(cat)
      new == Categories(cat')
  IN /\ Len(old) <= Len(new)
     /\ \A k \in 1..Len(old) : /\ new[k].name = old[k].name
                               /\ \A j \in 1..Len(old[k].opts) : /\ new[k].opts[j].name = old[k].opts[j].name
                                                                 /\ new[k].opts[j].members \cap P = old[k].opts[j].members
     /\ IsPrefix(Vendors(cat), Vendors(cat'))
     /\ \A o \in OrderNames : \A i, j \in P : (Positions(cat, o)[i] < Positions(cat, o)[j]) <=> (Positions(cat', o)[i] < Positions(cat', o)[j])
  ]_mcvars

(* Money, worked out once *)
MoneyTable == TLCEval([c \in {0} \cup 8..100 |-> NumberOf(c, 1000)])
SmallMoney(c) == MoneyTable[c]

(* C10 *)
Num(c) == <<"n">> \o Money(c)
Obj(fs) == <<"o", fs>>
Bounds == {Undef, <<"z">>, Num(20), Num(40), Num(60), <<"s", A>>}
FilterSpecs == {[k |-> key, v |-> Obj(<<<<"from", f>>, <<"to", t>>, <<"exact", e>>>>)] :
                  key \in {"price", "image_url", "nope"}, f \in Bounds, t \in Bounds, e \in {Undef, Num(40), <<"s", B>>, <<"z">>}}
KeptBy(f) == {i \in P : Passes(cat, i, f)}
FiltersExact ==
  \A f \in FilterSpecs :
    LET from == f.v[2][1][2]
        to == f.v[2][2][2]
        exact == f.v[2][3][2]
        num(x) == x[1] = "n"
        bounded == num(from) \/ num(to)
        isexact == from = Undef /\ to = Undef /\ exact # Undef
        value(i) == CASE f.k = "price" -> <<Num(cat[i].price)>>
                      [] f.k = "image_url" -> IF HasImage(cat[i]) THEN <<<<"s", ImageOf(cat[i])>>>> ELSE <<>>
                      [] OTHER -> <<>>
    IN /\ isexact => KeptBy(f) = {i \in P : value(i) = <<exact>>}
       /\ (~isexact /\ ~bounded) => KeptBy(f) = P
       /\ (~isexact /\ bounded) => KeptBy(f) = {i \in P : value(i) # <<>> /\ num(value(i)[1])
             /\ (num(from) => ~NumLT(Tail(value(i)[1]), Tail(from))) /\ (num(to) => ~NumLT(Tail(to), Tail(value(i)[1])))}
(* a wider range keeps more *)
RangesMonotone ==
  \A a, b, c, d \in 1..4 : (a <= b /\ c >= d) =>
     KeptBy([k |-> "price", v |-> Obj(<<<<"from", Num(20 * b)>>, <<"to", Num(20 * d)>>>>)])
       \subseteq KeptBy([k |-> "price", v |-> Obj(<<<<"from", Num(20 * a)>>, <<"to", Num(20 * c)>>>>)])

(* C11: what is shown is the record's own *)
OwnData == \A i, j \in P :
   Shows(cat, i, cat[j].title, cat[j].desc, cat[j].id, Money(cat[j].price), IF HasImage(cat[j]) THEN <<ImageOf(cat[j])>> ELSE <<>>, <<>>)
     => (cat[i].title = cat[j].title /\ cat[i].price = cat[j].price
         /\ (HasImage(cat[j]) => (HasImage(cat[i]) /\ cat[i].images[1] = cat[j].images[1])
                                 \/ (cat[j].images[1] = <<>> /\ ~HasImage(cat[i]))))

(* Every catalogue for the real library *)
EmitCase == Emit => PrintT(<<"CASE", ToJson([n |-> 1, cat |-> cat])>>)
=============================================================================
