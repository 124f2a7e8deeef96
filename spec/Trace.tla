------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validates a recorded run of the real library: every event must be a     *)
(* step of Engine (or an observation Observe allows).                      *)
(***************************************************************************)
EXTENDS Observe, Scale, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLE l
E == Log[l]
Is(name) == l <= Len(Log) /\ Log[l].ev = name /\ l' = l + 1

One(s) == [k \in 1..Len(s) |-> s[k] + 1]        \* item keys from 0 to from 1
Opt(s) == [k \in 1..Len(s) |-> IF s[k] = <<>> THEN <<>> ELSE <<s[k][1]>>]

TraceInit == Init /\ l = 1

(* a fresh process: nothing built, nothing loaded *)
TForget == Is("Forget") /\ Forget
TReset == Is("Reset") /\ arts' = Nothing /\ cur' = "" /\ hnd' = Nothing /\ cursors' = Nothing /\ prods' = Nothing
(* new scenario in the same process: what is loaded stays loaded *)
TScenario == Is("Scenario") /\ hnd' = Nothing /\ cursors' = Nothing /\ prods' = Nothing
             /\ cur' = cur /\ arts' = IF cur = "" THEN Nothing ELSE (cur :> arts[cur])

TBuild == Is("Build") /\ Must("tags of the index", TagOrderOk(E.cat, E.tags)) /\ Build(E.a, E.cat, E.n, E.tags)
(* index built from JSON: any order of the records *)
TJson == Is("Json") /\ Must("acceptance of the JSON catalogue", E.ok = E.good)
         /\ (E.ok => Must("records indexed", SameRecords(E.recs, E.cat)))
         /\ IF E.ok THEN Must("tags of the index", TagOrderOk(E.cat, E.tags)) /\ Build(E.a, E.cat, 5, E.tags) ELSE UNCHANGED vars

TReading == Is("Reading") /\ ReadingOk(E.text, E.ok, E.ps, E.cats, E.names, E.tags, E.orders) /\ UNCHANGED vars
TFillers == Is("Fillers") /\ FillersOk(E.ws) /\ UNCHANGED vars
TIndexer == Is("Indexer")
         /\ Must(<<"the program ends well", E.good /\ E.place>>, E.done = (E.good /\ E.place))
         /\ (E.done => Must("records indexed", SameRecords(E.recs, E.cat)) /\ Must("tags of the index", TagOrderOk(E.cat, E.tags)))
         /\ (~E.done => Must("index file left alone", E.kept))
         /\ Must("no other files", E.others = <<>>)
         /\ RunIndexer(IF E.good THEN <<E.recs>> ELSE <<>>, E.place, E.done, E.kept, E.cat, E.tags)
TOutputGone == Is("OutputGone") /\ OutputGone
TRebuild == Is("Rebuild") /\ Must("tags of the index", TagOrderOk(Cat(E.of), E.tags)) /\ Rebuild(E.a, E.of, E.tags)
TLoad == Is("Load") /\ Load(E.a)
TLoadFails == Is("LoadFails") /\ Must("refusal of a damaged file", E.refused) /\ LoadFails
TCuts == Is("Cuts") /\ Must(<<"cuts accepted", E.accepted>>, E.accepted = <<>>)
         /\ Must(<<"cuts crashing", E.crashed>>, E.crashed = <<>>)
         /\ Must("full file loads", E.full) /\ UNCHANGED vars

Obs(name) == Is(name) /\ UNCHANGED vars
TEqual == Obs("Equal") /\ Must("index equal after loading", E.index) /\ Must("categories, tags, orders equal after loading", E.classic)
TCompare == Obs("Compare") /\ CompareOk(Ix(E.a), E.other, E.products, E.index, E.classic)
TProducts == Obs("Products") /\ ProductsOk(Cat(E.a), E.ps, E.short)
TTree == Obs("Tree") /\ TreeOk(Ix(E.a), E.roots)
TChain == Obs("Chain") /\ Must(<<"chain", E.c>>, ChainOk(Ix(E.a), E.c, E.chain))
TPosts == Obs("Posts") /\ PostsOk(Ix(E.a), E.posts)
TCats == Obs("Cats") /\ CatsOk(Ix(E.a), E.cats)
TTags == Obs("Tags") /\ TagsOk(Cat(E.a), Tags(E.a), E.tags)
TOrders == Obs("Orders") /\ OrdersOk(Cat(E.a), E.orders)
TCorrect == Obs("Correct") /\ \A k \in 1..Len(E.rs) : CorrectedOk(Ix(E.a), E.rs[k][1], E.rs[k][2])
TRank == Obs("Rank") /\ RankedOk(Ix(E.a), E.q, E.chosen, E.res)
TFile == Obs("File") /\ LET f == DecodeFile(E.bytes)
                        IN /\ Must("file readable", f.ok /\ f.next = Len(E.bytes) + 1)
                           /\ FileSays(f, Ix(E.a), Tags(E.a), OrderNamesCoded)
TCode == Obs("Code") /\ Must(<<"value", E.v>>, SameValue(E.v, E.back)) /\ Must(<<"bytes left", E.v>>, E.left = E.extra)
TCodeMany ==
  /\ Obs("CodeMany")
  /\ Must(<<"bytes written for many", E.kind, E.n, SizeOfMany(E.kind, E.n, E.step)>>, E.size = SizeOfMany(E.kind, E.n, E.step))
  /\ Must(<<"many read back", E.kind, E.n>>, E.back = <<[left |-> E.extra, n |-> E.n, same |-> TRUE]>>)
TWire == Obs("Wire") /\ Must(<<"bytes of", E.v>>, WireOk(E.v, E.bytes))
TShort == Obs("Short") /\ \A k \in 1..Len(E.rs) :
            Must(<<"shortening", E.rs[k]>>, E.rs[k][3] = <<ShortenFast(E.rs[k][1], E.rs[k][2])>>)
TNumId == Obs("NumId") /\ Must(<<"numeric id", E.id>>, E.digits = TrailingDigits(E.id))

TNewHandler == Is("NewHandler") /\ Must("handler on offer", E.some = Loaded) /\ NewHandler(E.h, E.kind, E.some)
TStatus == Is("Status") /\ Must("status", E.v = Status(E.h, One(E.item))) /\ ReadStatus(E.h, One(E.item), E.v)
TToggle ==
   /\ Is("Toggle")
   /\ LET item == One(E.item)
          due == Listeners(E.h, item) \o hnd[E.h].gen
      IN /\ Must(<<"observers to call", due>>, SameBag([i \in 1..Len(E.calls) |-> E.calls[i][1]], due))
         /\ Must("state passed to observers", \A i \in 1..Len(E.calls) : E.calls[i][2] = ~Status(E.h, item))
         /\ Toggle(E.h, item, E.calls)
TListenAll == Is("ListenAll") /\ ListenAll(E.h, E.o)
TListen == Is("Listen") /\ Listen(E.h, One(E.item), E.o)
TUnlisten == Is("Unlisten") /\ Unlisten(E.h, One(E.item), E.o)

TOpen == Is("Open") /\ OpenFrom(E.c, E.h)
TStep == Is("Step") /\ Must("cursor element", StepResult(E.c, E.res)) /\ Step(E.c, E.res)
TStepCat == Is("StepCat") /\ Must("cursor element", StepResult(E.c, E.res)) /\ StepCategory(E.c, E.res, E.new)

TSearch ==
   /\ Is("Search")
   /\ Must("search result object", E.some = SearchAllowed(E.order, E.filters))
   /\ (E.some => Must("corrections", ChosenOk(BestOf(Ix(cur), Windows(E.q, Ix(cur).n)), Opt(E.chosen))))
   /\ Search(E.c, E.q, E.hc, E.ht, E.order, E.filters, Opt(E.chosen), E.some)
TSearchGiven ==
   /\ Is("SearchGiven")
   /\ Must("search result object", E.some = SearchAllowed(E.order, E.filters))
   /\ SearchGiven(E.c, E.hc, E.ht, E.order, E.filters, [k \in 1..Len(E.base) |-> <<E.base[k][1] + 1, E.base[k][2]>>], E.some)
TNext ==
   /\ Is("NextProduct")
   /\ LET x == cursors[E.c]
      IN IF E.i < 0 THEN Must(<<"products still to come", x.rem>>, x.rem = {})
         ELSE /\ Must(<<"product belongs to the result", E.i + 1, x.rem>>, (E.i + 1) \in x.rem)
              /\ Must(<<"product comes too early", E.i + 1, x.key>>, \A j \in x.rem : MayPrecede(x.key, E.i + 1, j))
   /\ NextProduct(E.c, E.i + 1, E.p)
TRead ==
   /\ Is("ReadProduct")
   /\ Must(<<"data of product", prods[E.p]>>, Shows(Cat(prods[E.p][1]), prods[E.p][2], E.title, E.desc, E.id, E.price, E.image, E.feats))
   /\ ReadProduct(E.p, E.title, E.desc, E.id, E.price, E.image, E.feats)
TNames == Is("Names") /\ Must(<<"names of items", E.h>>, NamesOf(E.h) = E.names) /\ ShowNames(E.h, E.names)
TReadSuggestion == Is("ReadSuggestion") /\ Must(<<"suggestion made earlier", cursors[E.c].res>>, E.res = cursors[E.c].res) /\ ReadSuggestion(E.c, E.res)
TReadOrders == Is("ReadOrders") /\ Must("orders on offer", E.some = Loaded) /\ ReadOrders(E.some, E.names)
TSuggest == Is("Suggest") /\ Must("suggestion", SuggestOk(E.q, E.res)) /\ Suggest(E.c, E.q, E.res)
TSuggestFrom == Is("SuggestFrom") /\ Must("suggestion", SuggestFromOk(E.q, E.res)) /\ SuggestFrom(E.c, E.q, E.res)

(* very many records *)
TScaleMembers ==
  /\ Obs("ScaleMembers")
  /\ Must("tags of very many", {E.tags[j][1] : j \in 1..Len(E.tags)} = {TagName(j) : j \in 0..3} /\ Len(E.tags) = 4)
  /\ \A k \in 0..3 : \E j \in 1..4 : E.tags[j][1] = TagName(k) /\ Must(<<"members of tag", k>>, E.tags[j][2] = Selected(E.p, FALSE, k, -1))
  /\ Must("options of very many", [j \in 1..Len(E.opts) |-> <<E.opts[j][1], E.opts[j][2]>>] = [j \in 1..5 |-> <<SizeName, OptName(j % 5)>>])
  /\ \A k \in 1..5 : Must(<<"members of option", k>>, E.opts[k][3] = Selected(E.p, FALSE, -1, k % 5))
TScaleOrders == Obs("ScaleOrders") /\ \A k \in 1..Len(E.orders) :
  Must(<<"order of very many", E.orders[k][1]>>, E.orders[k][2] = <<ScaleOrder(E.p, E.z, E.orders[k][1])>>)
TScalePosts == Obs("ScalePosts") /\ Must("posting of very many", \A k \in 1..2 : E.halves[k] = Selected(E.p, TRUE, -1, -1))
TScaleFound ==
  /\ Obs("ScaleFound")
  /\ Must("search result object", E.some)
  /\ Must(<<"found of very many", E.tag, E.opt, E.order>>, E.runs = ScaleFound(E.p, E.z, E.tag, E.opt, E.order))
  /\ Must("the end stays the end", E.ends)
TScaleShows ==
  /\ Obs("ScaleShows")
  /\ Must(<<"data of product", E.i>>, Shows(E.i :> ScaleRec(E.i, E.p, E.z), E.i, E.title, E.desc, E.id, E.price, E.image, E.feats))

TraceNext ==
  \/ TForget \/ TReset \/ TScenario \/ TBuild \/ TRebuild \/ TJson \/ TReading \/ TFillers \/ TIndexer \/ TOutputGone \/ TLoad \/ TLoadFails \/ TCuts \/ TEqual \/ TCompare \/ TProducts \/ TTree \/ TChain
  \/ TPosts \/ TCats \/ TTags \/ TOrders \/ TCorrect \/ TRank \/ TFile \/ TCode \/ TCodeMany \/ TWire \/ TShort \/ TNumId
  \/ TNewHandler \/ TStatus \/ TToggle \/ TListenAll \/ TListen \/ TUnlisten \/ TOpen \/ TStep \/ TStepCat
  \/ TSearch \/ TSearchGiven \/ TNext \/ TRead \/ TReadOrders \/ TSuggest \/ TSuggestFrom \/ TNames \/ TReadSuggestion
  \/ TScaleMembers \/ TScaleOrders \/ TScalePosts \/ TScaleFound \/ TScaleShows

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>

OnlyLine == l

TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1
  IN IF d = Len(Log) THEN TRUE
     ELSE PrintT(<<"REJECTED-AT", d + 1, "OF", Len(Log)>>) /\ FALSE
=============================================================================
