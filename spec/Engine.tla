------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The search engine as its user drives it: build index files, load one    *)
(* (or fail to), obtain handlers, switch tags and category options, listen *)
(* to switches, step cursors, search, ask for suggestions.                 *)
(*                                                                         *)
(* One action per public call.  Whatever a call returns is an argument of  *)
(* its action, constrained by the action; whatever the system leaves open  *)
(* (order of tags, choice among equally good corrections, order of equally *)
(* ranked products) stays open here.                                       *)
(***************************************************************************)
EXTENDS Catalog

VARIABLES
  arts,     \* index files that exist:  name -> [ix : index, tags : Seq(text)]
  cur,      \* name of the loaded index file, "" before the first load
  hnd,      \* handlers:  id -> [kind, a, on, gen, item]
  cursors,  \* cursors:   id -> record, see below
  prods     \* product objects handed out:  id -> <<file, product number>>

vars == <<arts, cur, hnd, cursors, prods>>

Nothing == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f

Init == /\ arts = Nothing /\ cur = "" /\ hnd = Nothing
        /\ cursors = Nothing /\ prods = Nothing

Loaded == cur # ""
Ix(a) == arts[a].ix
Cat(a) == arts[a].ix.cat
Tags(a) == arts[a].tags
Cats(a) == arts[a].ix.cats

---------------------------------------------------------------------------
(* Index files *)

(* The order of tags in a file is the indexer's choice *)
TagOrderOk(cat, tags) ==
  /\ Range1(tags) = TagSet(cat)
  /\ Len(tags) = Cardinality(TagSet(cat))

Build(a, cat, n, tags) ==
  /\ TagOrderOk(cat, tags)
  /\ arts' = Put(arts, a, [ix |-> IndexOf(cat, n), tags |-> tags])
  /\ UNCHANGED <<cur, hnd, cursors, prods>>

(* the catalogue of a, indexed once more *)
Rebuild(b, a, tags) ==
  /\ a \in DOMAIN arts
  /\ TagOrderOk(Cat(a), tags)
  /\ arts' = Put(arts, b, [ix |-> Ix(a), tags |-> tags])
  /\ UNCHANGED <<cur, hnd, cursors, prods>>

(* The indexing program.  input: <<>> no well-formed catalogue, or <<the    *)
(* catalogue>>; place: the index file can be written; done: it says it      *)
(* succeeded; kept: the index file is what it was before.                   *)
OutFile == "out.test"
SameRecords(a, b) ==
  Len(a) = Len(b) /\ \A i \in 1..Len(a) :
     Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
RunIndexer(input, place, done, kept, cat, tags) ==
  /\ done = (input # <<>> /\ place)
  /\ IF done THEN SameRecords(input[1], cat) /\ Build(OutFile, cat, 5, tags)
     ELSE kept /\ UNCHANGED vars
OutputGone ==
  /\ arts' = [a \in DOMAIN arts \ {OutFile} |-> arts[a]]
  /\ UNCHANGED <<cur, hnd, cursors, prods>>

Load(a) ==
  /\ a \in DOMAIN arts
  /\ cur' = a
  /\ UNCHANGED <<arts, hnd, cursors, prods>>

(* Loading anything that is not a complete index file fails and changes nothing *)
LoadFails == UNCHANGED vars

---------------------------------------------------------------------------
(* Handlers.  An item is <<tag number>> or <<category number, option number>> *)

Items(kind, a) ==
  IF kind = "tags" THEN {<<k>> : k \in 1..Len(Tags(a))}
  ELSE UNION {{<<k, j>> : j \in 1..Len(Cats(a)[k].opts)} : k \in 1..Len(Cats(a))}

Members(kind, a, item) ==
  IF kind = "tags" THEN TagMembers(Cat(a), Tags(a)[item[1]])
  ELSE Cats(a)[item[1]].opts[item[2]].members

NewHandler(h, kind, some) ==
  /\ some = Loaded
  /\ hnd' = IF Loaded THEN Put(hnd, h, [kind |-> kind, a |-> cur, on |-> {}, gen |-> <<>>, item |-> Nothing])
            ELSE hnd
  /\ UNCHANGED <<arts, cur, cursors, prods>>

Status(h, item) == item \in hnd[h].on
ReadStatus(h, item, v) ==
  /\ v = Status(h, item)
  /\ UNCHANGED vars

Listeners(h, item) == IF item \in DOMAIN hnd[h].item THEN hnd[h].item[item] ELSE <<>>

Count(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Range1(s) : Count(x, s) = Count(x, t)

(* calls: sequence of <<observer, state it was called with>> in call order *)
Toggle(h, item, calls) ==
  LET new == ~Status(h, item)
      due == Listeners(h, item) \o hnd[h].gen
  IN /\ \A i \in 1..Len(calls) : calls[i][2] = new
     /\ SameBag([i \in 1..Len(calls) |-> calls[i][1]], due)
     /\ hnd' = [hnd EXCEPT ![h].on = IF new THEN @ \cup {item} ELSE @ \ {item}]
     /\ UNCHANGED <<arts, cur, cursors, prods>>

ListenAll(h, o) ==
  /\ hnd' = [hnd EXCEPT ![h].gen = Append(@, o)]
  /\ UNCHANGED <<arts, cur, cursors, prods>>

Listen(h, item, o) ==
  /\ hnd' = [hnd EXCEPT ![h].item = Put(@, item, Append(Listeners(h, item), o))]
  /\ UNCHANGED <<arts, cur, cursors, prods>>

RemoveOne(s, x) ==
  IF Count(x, s) = 0 THEN s
  ELSE LET i == CHOOSE i \in 1..Len(s) : s[i] = x
       IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Unlisten(h, item, o) ==
  /\ hnd' = [hnd EXCEPT ![h].item = Put(@, item, RemoveOne(Listeners(h, item), o))]
  /\ UNCHANGED <<arts, cur, cursors, prods>>

---------------------------------------------------------------------------
(* Cursors over lists *)

OpenList(c, kind, a, k) ==      \* kind: "tags" | "cats" | "opts" (of category k)
  /\ cursors' = Put(cursors, c, [kind |-> kind, a |-> a, k |-> k, pos |-> 1])
  /\ UNCHANGED <<arts, cur, hnd, prods>>

OpenFrom(c, h) == OpenList(c, hnd[h].kind, hnd[h].a, 0)

ListOf(x) ==
  CASE x.kind = "tags" -> Tags(x.a)
    [] x.kind = "cats" -> [i \in 1..Len(Cats(x.a)) |-> Cats(x.a)[i].name]
    [] x.kind = "opts" -> [i \in 1..Len(Cats(x.a)[x.k].opts) |-> Cats(x.a)[x.k].opts[i].name]

(* res: <<>> at the end, <<name>> of the element otherwise *)
StepResult(c, res) ==
  LET x == cursors[c]
      l == ListOf(x)
  IN res = IF x.pos <= Len(l) THEN <<l[x.pos]>> ELSE <<>>

AtEnd(c) == cursors[c].pos > Len(ListOf(cursors[c]))
Advanced(c) == IF AtEnd(c) THEN cursors ELSE [cursors EXCEPT ![c].pos = @ + 1]

Step(c, res) ==
  /\ StepResult(c, res)
  /\ cursors' = Advanced(c)
  /\ UNCHANGED <<arts, cur, hnd, prods>>

(* Stepping over categories opens a cursor over the options of the category *)
StepCategory(c, res, new) ==
  /\ StepResult(c, res)
  /\ LET x == cursors[c]
     IN cursors' = IF AtEnd(c) THEN cursors
                   ELSE Put(Advanced(c), new, [kind |-> "opts", a |-> x.a, k |-> x.pos, pos |-> 1])
  /\ UNCHANGED <<arts, cur, hnd, prods>>

---------------------------------------------------------------------------
(* Searching *)

(* best: per window the set of best corrections.                           *)
(* chosen: per window <<>> or <<gram>>, one of them.                       *)
BestOf(ix, wins) == TLCEval([k \in 1..Len(wins) |-> Corrections(ix.forest, wins[k])])

ChosenOk(best, chosen) ==
  /\ Len(chosen) = Len(best)
  /\ \A k \in 1..Len(best) :
       IF chosen[k] = <<>> THEN best[k] = {}
       ELSE \E x \in best[k] : x.g = chosen[k][1]

WeightOf(best, g) == (CHOOSE x \in best : x.g = g).w

Found(hits) == UNION {DOMAIN hits[m][1] : m \in 1..Len(hits)}
Score(hits, i) == FoldLeft(LAMBDA a, h : IF i \in DOMAIN h[1] THEN a + h[1][i] * h[2] ELSE a, 0, hits)
Terms(hits, i) == FoldLeft(LAMBDA a, h : IF i \in DOMAIN h[1] THEN a + h[1][i] ELSE a, 0, hits)
(* A product found this often has a score that is too large to count in    *)
(* millionths: then all are counted in thousandths                         *)
Coarse(hits) == \E i \in Found(hits) : Terms(hits, i) > 2000

(* What each corrected window contributes: <<posting bag, confidence in    *)
(* millionths>>                                                            *)
Hits(ix, best, chosen) ==
  LET P == Len(ix.cat)
      idxs == SelectSeq([k \in 1..Len(best) |-> k], LAMBDA k : chosen[k] # <<>>)
  IN With(TLCEval([m \in 1..Len(idxs) |->
             LET k == idxs[m]
             IN <<TLCEval(Posting(ix.posts, chosen[k][1], P)), TLCEval(Micro(WeightOf(best[k], chosen[k][1])))>>]),
          LAMBDA hits : IF Coarse(hits) THEN TLCEval([m \in 1..Len(hits) |-> <<hits[m][1], (hits[m][2] + 500) \div 1000>>]) ELSE hits)

(* Two scores are told apart only when they differ by more than the fixed  *)
(* point and single precision errors                                       *)
Slack(s, terms) == (IF terms > 2000 THEN 2 ELSE 1) * terms + 2 + s \div 50000 + (s \div 16000000) * terms

(* the products a handler lets through: those all its switches that are on hold *)
Chosen(h) == TLCEval({Members(hnd[h].kind, hnd[h].a, item) : item \in hnd[h].on})

---------------------------------------------------------------------------
(* Feature filters.  JavaScript values are tagged: <<"u">> undefined,      *)
(* <<"z">> null, <<"n", hi, lo, f>>, <<"s", text>>, <<"b", bool>>,         *)
(* <<"o", Seq(<<key, value>>)>> object.                                    *)
Undef == <<"u">>
Lookup(o, key) ==
  LET hit == {i \in 1..Len(o[2]) : o[2][i][1] = key}
  IN IF hit = {} THEN Undef ELSE o[2][CHOOSE i \in hit : TRUE][2]

FilterOk(f) == f.v[1] = "o"

ValueOf(cat, i, key) ==
  CASE key = "price" -> <<"n">> \o Money(cat[i].price)
    [] key = "image_url" /\ HasImage(cat[i]) -> <<"s", ImageOf(cat[i])>>
    [] HasFeature(cat[i], key) ->
         LET v == FeatureOf(cat[i], key)
         IN CASE v[1] = "i" -> <<"n", v[2], v[3], 0>> [] v[1] = "f" -> <<"n">> \o Money(v[2]) [] OTHER -> v
    [] OTHER -> Undef

Passes(cat, i, f) ==
  LET from == Lookup(f.v, "from")
      to == Lookup(f.v, "to")
      exact == Lookup(f.v, "exact")
      val == ValueOf(cat, i, f.k)
      bound(b) == b[1] = "n"
  IN IF from = Undef /\ to = Undef /\ exact # Undef
     THEN val # Undef /\ val[1] = exact[1] /\ val = exact
     ELSE IF ~bound(from) /\ ~bound(to) THEN TRUE
     ELSE /\ val[1] = "n"
          /\ bound(from) => ~NumLT(Tail(val), Tail(from))
          /\ bound(to) => ~NumLT(Tail(to), Tail(val))

---------------------------------------------------------------------------
(* search(): some = a result object is returned.  The result is a cursor   *)
(* that remembers what is still to come and how it is ranked: key[i] is    *)
(* the rank of product i and how far apart ranks must be to be told apart. *)
SearchAllowed(order, filters) ==
  /\ Loaded
  /\ \A k \in 1..Len(filters) : FilterOk(filters[k])
  /\ order # <<>> => order[1] \in OrderNames

(* What is left of the products found, and in which order.                 *)
StillIn(cat, held, filters, found) ==
  TLCEval({i \in found : /\ \A m \in held : i \in m
                         /\ \A k \in 1..Len(filters) : Passes(cat, i, filters[k])})
Ranks(cat, order, rank) ==
  IF order = <<>> THEN rank
  ELSE With(PositionsFast(cat, order[1]), LAMBDA pos : TLCEval([i \in 1..Len(cat) |-> <<pos[i], 0>>]))
Outcome(hc, ht, order, filters, found, rank) ==
  With(With(TLCEval(Chosen(hc) \cup Chosen(ht)), LAMBDA held : StillIn(Cat(cur), held, filters, found)), LAMBDA keep :
  With(Ranks(Cat(cur), order, rank), LAMBDA key :
    [kind |-> "prods", a |-> cur, rem |-> keep, key |-> TLCEval([i \in keep |-> key[i]])]))
Scores(hits) == With(Found(hits), LAMBDA found :
  TLCEval([i \in found |-> <<-Score(hits, i), Slack(Score(hits, i), Terms(hits, i))>>]))

Search(c, q, hc, ht, order, filters, chosen, some) ==
  /\ some = SearchAllowed(order, filters)
  /\ IF ~some THEN cursors' = cursors
     ELSE /\ ChosenOk(BestOf(Ix(cur), Windows(q, Ix(cur).n)), chosen)
          /\ cursors' = Put(cursors, c,
                With(With(TLCEval(BestOf(Ix(cur), Windows(q, Ix(cur).n))), LAMBDA best : TLCEval(Hits(Ix(cur), best, chosen))), LAMBDA hits :
                  Outcome(hc, ht, order, filters, Found(hits), Scores(hits))))
  /\ UNCHANGED <<arts, cur, hnd, prods>>

(* The same search, given what the index at hand finds for the query:      *)
(* base is a sequence of <<product, confidence in millionths>>.  What is   *)
(* decided here is only what is done with it.                              *)
RankOf(base) == With(TLCEval({base[k][1] : k \in 1..Len(base)}), LAMBDA found :
  TLCEval([i \in found |-> <<-(base[CHOOSE k \in 1..Len(base) : base[k][1] = i][2]), 1>>]))
SearchGiven(c, hc, ht, order, filters, base, some) ==
  /\ some = SearchAllowed(order, filters)
  /\ IF ~some THEN cursors' = cursors
     ELSE cursors' = Put(cursors, c, Outcome(hc, ht, order, filters, TLCEval({base[k][1] : k \in 1..Len(base)}), RankOf(base)))
  /\ UNCHANGED <<arts, cur, hnd, prods>>

(* i may come before j *)
MayPrecede(key, i, j) == key[i][1] - key[i][2] <= key[j][1] + key[j][2]

(* Stepping a search result: i = 0 at the end *)
NextProduct(c, i, p) ==
  LET x == cursors[c]
  IN IF x.rem = {} THEN i = 0 /\ UNCHANGED vars
     ELSE /\ i \in x.rem
          /\ \A j \in x.rem : MayPrecede(x.key, i, j)
          /\ cursors' = [cursors EXCEPT ![c].rem = @ \ {i}]
          /\ prods' = Put(prods, p, <<x.a, i>>)
          /\ UNCHANGED <<arts, cur, hnd>>

(* What a product object shows.  image: <<>> none or <<text>>.  A product  *)
(* without image may show no image or an empty one, never a real one.      *)
(* feats: sequence of <<name, numbers, texts>>, at most one of each: what  *)
(* the product says its feature of that name is.                           *)
Tells(cat, i, f) ==
  LET v == ValueOf(cat, i, f[1])
  IN /\ f[2] = IF v[1] = "n" THEN <<Tail(v)>> ELSE <<>>
     /\ IF f[1] = "image_url" /\ ~HasImage(cat[i]) THEN f[3] \in {<<>>, <<<<>>>>}
        ELSE f[3] = IF v[1] = "s" THEN <<v[2]>> ELSE <<>>

Shows(cat, i, title, desc, id, price, image, feats) ==
  /\ \A k \in 1..Len(feats) : Tells(cat, i, feats[k])
  /\ title = cat[i].title
  /\ desc = ShortenFast(cat[i].desc, DescLimit)
  /\ id = cat[i].id
  /\ price = Money(cat[i].price)
  /\ IF HasImage(cat[i]) THEN image = <<ImageOf(cat[i])>> ELSE image \in {<<>>, <<<<>>>>}

ReadProduct(p, title, desc, id, price, image, feats) ==
  /\ Shows(Cat(prods[p][1]), prods[p][2], title, desc, id, price, image, feats)
  /\ UNCHANGED vars

---------------------------------------------------------------------------
(* Items obtained from a handler show the names they have in its index *)
NamesOf(h) ==
  LET a == hnd[h].a
  IN IF hnd[h].kind = "tags" THEN Tags(a)
     ELSE [k \in 1..Len(Cats(a)) |-> [j \in 1..Len(Cats(a)[k].opts) |-> Cats(a)[k].opts[j].name]]
ShowNames(h, names) == names = NamesOf(h) /\ UNCHANGED vars

---------------------------------------------------------------------------
(* Orders on offer *)
ReadOrders(some, names) ==
  /\ some = Loaded
  /\ Loaded => (Len(names) = Cardinality(OrderNames) /\ Range1(names) = OrderNames)
  /\ UNCHANGED vars

---------------------------------------------------------------------------
(* Tag suggestions *)
Words(q) ==
  LET cut == SetToSortSeq({i \in 1..Len(q) : q[i] = Space} \cup {0, Len(q) + 1}, <)
  IN [k \in 1..(Len(cut) - 1) |-> SubSeq(q, cut[k] + 1, cut[k + 1] - 1)]

Shorter(s, t) == IF Len(s) <= Len(t) THEN Len(s) ELSE Len(t)
Agree(s, t) == Cardinality({i \in 1..Shorter(s, t) : s[i] = t[i]})
Qualifies(s, t) == Shorter(s, t) >= 3 /\ 5 * Agree(s, t) > 4 * Shorter(s, t)

SuggestOk(q, res) ==         \* res: <<>> or <<tag name, query word>>
  LET ws == Range1(Words(q))
      ts == Range1(Tags(cur))
      pairs == IF Loaded THEN {x \in ts \X ws : Qualifies(x[1], x[2])} ELSE {}
      atleast(x, y) == Agree(x[1], x[2]) * Shorter(y[1], y[2]) >= Agree(y[1], y[2]) * Shorter(x[1], x[2])
  IN IF pairs = {} THEN res = <<>>
     ELSE res \in {x \in pairs : \A y \in pairs : atleast(x, y)}

(* A suggestion, once made, stays what it is *)
Keep(c, res) ==
  /\ cursors' = IF res = <<>> THEN cursors ELSE Put(cursors, c, [kind |-> "suggestion", a |-> cur, res |-> res])
  /\ UNCHANGED <<arts, cur, hnd, prods>>
Suggest(c, q, res) == SuggestOk(q, res) /\ Keep(c, res)
ReadSuggestion(c, res) == res = cursors[c].res /\ UNCHANGED vars

(* The part of it that says which index answers: a tag of the loaded one,  *)
(* and an answer whenever a word of the query is such a tag.               *)
SuggestFromOk(q, res) ==
  IF ~Loaded THEN res = <<>>
  ELSE IF res # <<>> THEN res[1] \in Range1(Tags(cur)) /\ res[2] \in Range1(Words(q))
  ELSE ~\E w \in Range1(Words(q)) : Len(w) >= 3 /\ w \in Range1(Tags(cur))
SuggestFrom(c, q, res) == SuggestFromOk(q, res) /\ Keep(c, res)

(* The user drops every handler, cursor and product *)
Forget ==
  /\ hnd' = Nothing /\ cursors' = Nothing /\ prods' = Nothing
  /\ UNCHANGED <<arts, cur>>

=============================================================================
