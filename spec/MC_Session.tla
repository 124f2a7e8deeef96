----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* The engine with two small index files, explored exhaustively up to a    *)
(* depth, checking C08, C09, C13, C14, C16 and the session half of C03 on  *)
(* every transition.  hist is the script that led here; with Emit = TRUE   *)
(* every transition is printed as a script for the driver to replay.       *)
(***************************************************************************)
EXTENDS Engine, Json
CONSTANTS Mode, Depth, Emit, Registrations

VARIABLE hist
mcvars == <<vars, hist>>

(* ---- two files ---- *)
Alpha == <<97,108,112,104,97>>
Bravo == <<98,114,97,118,111>>
Candy == <<99,97,110,100,121>>
Delta == <<100,101,108,116,97>>
O(n, vs) == [name |-> n, values |-> vs]
R(id, desc, title, price, tags, opts) ==
  [desc |-> desc, title |-> title, vendor |-> <<>>, id |-> <<id>>, tags |-> tags, opts |-> opts, price |-> 250 * price,
   images |-> IF id = 50 THEN <<<<120>>, <<121>>>> ELSE <<>>,
   feats |-> IF Mode # "filter" THEN <<>>
             ELSE <<[k |-> "rating", c |-> <<114,97,116,105,110,103>>, v |-> <<"f", IF id = 50 THEN 1000 ELSE 1500>>]>>
                  \o (IF id = 51 THEN <<>> ELSE <<[k |-> "stock", c |-> <<115,116,111,99,107>>, v |-> <<"i", 0, id - 49>>]>>)
                  \o (IF id > 49 THEN <<>> ELSE <<[k |-> "cut", c |-> <<99,117,116>>, v |-> <<"s", <<120>>>>]>>)]
CatA == << R(49, Alpha, <<98>>, 8, <<Alpha>>, <<O(<<115>>, <<<<120>>>>)>>),
           R(50, Bravo, <<97>>, 4, <<Bravo, Alpha>>, <<O(<<115>>, <<<<121>>, <<120>>>>)>>),
           R(51, Candy, <<97>>, 6, <<>>, <<O(<<115>>, <<<<121>>>>)>>) >>
CatB == << R(49, Bravo, <<>>, 4, <<>>, <<O(<<115>>, <<<<122>>>>)>>),
           R(50, Candy, <<98>>, 8, <<Bravo>>, <<O(<<116>>, <<<<120>>>>)>>),
           R(51, Delta, <<97>>, 8, <<Bravo>>, <<>>) >>
Files == [A |-> [cat |-> CatA, tags |-> <<Alpha, Bravo>>], B |-> [cat |-> CatB, tags |-> <<Bravo>>]]
Built == [a \in DOMAIN Files |-> [ix |-> IndexOf(Files[a].cat, 5), tags |-> Files[a].tags]]

Both == Alpha \o <<32>> \o Bravo
Queries == {Both, Candy, <<97>>}
Observers == {1, 3}
HandlerNames == IF Mode \in {"switch", "filter"} THEN {"tags1", "cats1"} ELSE {"tags1", "cats1", "tags2", "cats2"}
KindOf == [h \in HandlerNames |-> IF h \in {"tags1", "tags2"} THEN "tags" ELSE "cats"]
CursorNames == {"c1", "c2"}
OptCursor == [c1 |-> <<"c1o1", "c1o2">>, c2 |-> <<"c2o1", "c2o2">>]

(* the driver gets the catalogues from here *)
ASSUME Emit => PrintT(<<"CATALOGUES", ToJson([a \in DOMAIN Files |-> Files[a].cat])>>)

Op(r) == hist' = Append(hist, r)
Room == TLCGet("level") <= Depth

MCInit ==
  /\ arts = Built
  /\ hnd = Nothing /\ cursors = Nothing /\ prods = Nothing
  /\ IF Mode = "life" THEN cur = "" /\ hist = <<>> ELSE cur = "A" /\ hist = <<[op |-> "load", a |-> "A"]>>

DoLoad == \E a \in DOMAIN Files : Load(a) /\ Op([op |-> "load", a |-> a])
DoFail == \E a \in DOMAIN Files : \E cut \in {1, 5, 10000} : LoadFails /\ Op([op |-> "damaged", a |-> a, cut |-> cut])
DoHandler == \E h \in HandlerNames \ DOMAIN hnd :
   NewHandler(h, KindOf[h], Loaded) /\ Op([op |-> "handler", h |-> h, kind |-> KindOf[h]])
DoToggle == \E h \in DOMAIN hnd : \E item \in Items(hnd[h].kind, hnd[h].a) :
   LET due == Listeners(h, item) \o hnd[h].gen
   IN Toggle(h, item, [i \in 1..Len(due) |-> <<due[i], ~Status(h, item)>>]) /\ Op([op |-> "toggle", h |-> h, item |-> item])
Registered(h) == Len(hnd[h].gen) + FoldLeft(LAMBDA a, i : a + Len(hnd[h].item[i]), 0, SetToSeq(DOMAIN hnd[h].item))
DoListenAll == \E h \in DOMAIN hnd : \E o \in Observers : Registered(h) < Registrations
   /\ ListenAll(h, o) /\ Op([op |-> "listenall", h |-> h, o |-> o])
DoListen == \E h \in DOMAIN hnd : \E item \in Items(hnd[h].kind, hnd[h].a) : \E o \in Observers : Registered(h) < Registrations
   /\ Listen(h, item, o) /\ Op([op |-> "listen", h |-> h, item |-> item, o |-> o])
DoUnlisten == \E h \in DOMAIN hnd : \E item \in Items(hnd[h].kind, hnd[h].a) : \E o \in Observers :
   Unlisten(h, item, o) /\ Op([op |-> "unlisten", h |-> h, item |-> item, o |-> o])
DoOpen == \E h \in DOMAIN hnd : \E c \in CursorNames \ DOMAIN cursors : OpenFrom(c, h) /\ Op([op |-> "open", c |-> c, h |-> h])
DoStep == \E c \in DOMAIN cursors :
   /\ CASE cursors[c].kind \in {"tags", "opts"} -> Step(c, IF AtEnd(c) THEN <<>> ELSE <<ListOf(cursors[c])[cursors[c].pos]>>)
        [] cursors[c].kind = "cats" -> StepCategory(c, IF AtEnd(c) THEN <<>> ELSE <<ListOf(cursors[c])[cursors[c].pos]>>,
                                                     IF AtEnd(c) THEN "none" ELSE OptCursor[c][cursors[c].pos])
        [] cursors[c].kind = "suggestion" -> FALSE
       [] cursors[c].kind = "prods" -> \E i \in {0} \cup cursors[c].rem : NextProduct(c, i, "p")
   /\ Op([op |-> "step", c |-> c, new |-> IF cursors[c].kind = "cats" /\ ~AtEnd(c) THEN OptCursor[c][cursors[c].pos] ELSE "none"])
Orders == IF Mode = "filter" THEN {<<>>, <<"Price high to low">>} ELSE IF Mode = "search" THEN {<<>>, <<"Price low to high">>, <<"Alphabetical">>, <<"none such">>} ELSE {<<>>}
(* filters: one of every shape, or two of a smaller set *)
Num(q) == <<"n">> \o Money(250 * q)
Bounds == {Undef, <<"z">>, Num(0), Num(4), Num(6), Num(7), <<"s", <<120>>>>, <<"s", <<49,46,53>>>>}
Spec(key, f, t, e) == [k |-> key, v |-> <<"o", <<<<"from", f>>, <<"to", t>>, <<"exact", e>>>>>>]
OneFilter == {Spec(key, f, t, e) : key \in {"price", "image_url", "nope", "rating", "stock", "cut"}, f \in Bounds, t \in Bounds,
                                   e \in {Undef, Num(0), Num(4), <<"s", <<120>>>>, <<"z">>}}
             \cup {[k |-> "price", v |-> v] : v \in {Undef, <<"z">>, Num(3), <<"s", <<49>>>>, <<"b", TRUE>>, <<"o", <<>>>>}}
FewPrice == {Spec("price", f, t, Undef) : f \in {Undef, Num(6)}, t \in {Undef, Num(6)}} \cup {Spec("price", Undef, Undef, Num(4)), [k |-> "price", v |-> Num(1)]}
FewOther == {Spec("image_url", Undef, Undef, <<"s", <<120>>>>), Spec("image_url", Num(1), Undef, Undef), Spec("nope", Undef, Undef, Num(4)), Spec("nope", Undef, Undef, Undef)}
Filters == IF Mode = "filter" THEN {<<>>} \cup {<<f>> : f \in OneFilter} \cup (FewPrice \X FewOther) \cup (FewOther \X FewPrice) ELSE {<<>>}
All == Both \o <<32>> \o Candy
(* what the query All finds: worked out once *)
Finds == [a \in DOMAIN Files |->
  LET ix == Built[a].ix
      best == BestOf(ix, Windows(All, 5))
      hits == Hits(ix, best, [k \in 1..Len(best) |-> IF best[k] = {} THEN <<>> ELSE <<(CHOOSE x \in best[k] : TRUE).g>>])
      s == SetToSeq(Found(hits))
  IN [k \in 1..Len(s) |-> <<s[k], Score(hits, s[k])>>]]
TheQueries == IF Mode = "filter" THEN {All} ELSE Queries
DoSearch == \E hc, ht \in DOMAIN hnd : \E q \in TheQueries : \E order \in Orders : \E fs \in Filters :
   \E c \in CursorNames \ DOMAIN cursors :
   /\ KindOf[hc] = "cats" /\ KindOf[ht] = "tags"
   \* handlers of another index than the loaded one have no meaning for it
   /\ hnd[hc].a = cur /\ hnd[ht].a = cur
   /\ IF Mode = "filter" THEN SearchGiven(c, hc, ht, order, fs, Finds[cur], SearchAllowed(order, fs)) ELSE
      LET best == BestOf(Ix(cur), Windows(q, 5))
          pick == [k \in 1..Len(best) |-> IF best[k] = {} THEN <<>> ELSE <<(CHOOSE x \in best[k] : TRUE).g>>]
      IN Search(c, q, hc, ht, order, fs, pick, SearchAllowed(order, fs))
   /\ Op([op |-> "search", c |-> c, q |-> q, hc |-> hc, ht |-> ht, order |-> order, filters |-> fs])
DoRead == \/ \E q \in {Both, Bravo \o <<32>> \o Delta} : \E r \in {x \in {<<>>} \cup (({Alpha, Bravo}) \X {Alpha, Bravo}) : TRUE} :
               Suggest("g", q, r) /\ Op([op |-> "suggest", q |-> q])
          \/ ReadOrders(Loaded, <<"Alphabetical", "Price low to high", "Price high to low">>) /\ Op([op |-> "orders"])

MCNext ==
  /\ Room
  /\ CASE Mode = "switch" -> DoHandler \/ DoToggle \/ DoListenAll \/ DoListen \/ DoUnlisten
       [] Mode = "cursor" -> DoHandler \/ DoOpen \/ DoStep \/ DoLoad
       [] Mode = "filter" -> DoHandler \/ (DOMAIN cursors = {} /\ DoSearch)
       [] Mode = "search" -> DoHandler \/ DoToggle \/ DoSearch \/ DoStep
       [] Mode = "life" -> DoLoad \/ DoFail \/ DoHandler \/ DoToggle \/ DoOpen \/ DoSearch \/ DoStep \/ DoRead
MCSpec == MCInit /\ [][MCNext]_mcvars

(* what was loaded, or refused, just before may matter to a careless engine *)
JustBefore == IF hist # <<>> /\ hist[Len(hist)].op \in {"damaged", "load"} THEN <<hist[Len(hist)].op, hist[Len(hist)].a>> ELSE <<>>
StateOnly == <<cur, hnd, cursors, prods, IF Mode = "life" THEN JustBefore ELSE <<>>>>
EmitScript == IF Emit THEN PrintT(<<"SCRIPT", ToJson(hist')>>) ELSE TRUE

---------------------------------------------------------------------------
(* C16 *)
NothingBeforeLoad == cur = "" => hnd = Nothing /\ cursors = Nothing
HandlesKeepTheirs == [][
  /\ arts' = arts
  /\ DOMAIN hnd \subseteq DOMAIN hnd' /\ \A h \in DOMAIN hnd : hnd'[h].a = hnd[h].a /\ hnd'[h].kind = hnd[h].kind
  /\ DOMAIN cursors \subseteq DOMAIN cursors' /\ \A c \in DOMAIN cursors : cursors[c].kind = "suggestion" \/ cursors'[c].a = cursors[c].a
  /\ \A h \in DOMAIN hnd' \ DOMAIN hnd : hnd'[h].a = cur /\ hnd'[h].on = {}
  ]_mcvars
LoadsTouchNothingElse == [][cur' # cur => UNCHANGED <<hnd, cursors, prods>>]_mcvars

(* C13 *)
OneSwitchAtATime == [][
  \A h \in DOMAIN hnd : hnd'[h].on # hnd[h].on =>
     /\ \E item \in Items(hnd[h].kind, hnd[h].a) : hnd'[h].on \in {hnd[h].on \cup {item}, hnd[h].on \ {item}}
     /\ hnd'[h].gen = hnd[h].gen /\ hnd'[h].item = hnd[h].item
     /\ \A g \in DOMAIN hnd \ {h} : hnd'[g] = hnd[g]
     /\ UNCHANGED <<cur, cursors, prods>>
  ]_mcvars
OneRegistrationAtATime == [][
  \A h \in DOMAIN hnd : (hnd'[h].gen # hnd[h].gen \/ hnd'[h].item # hnd[h].item) =>
     /\ Registered(h)' - Registered(h) \in {-1, 0, 1}
     /\ hnd'[h].on = hnd[h].on
     /\ \A g \in DOMAIN hnd \ {h} : hnd'[g] = hnd[g]
  ]_mcvars

(* C14 *)
CursorsIndependent == [][
  \A c, d \in DOMAIN cursors : cursors'[c] # cursors[c] /\ cursors'[d] # cursors[d] => c = d ]_mcvars
CursorsForward == [][
  \A c \in DOMAIN cursors :
     IF cursors[c].kind = "suggestion" THEN TRUE
     ELSE IF cursors[c].kind = "prods"
     THEN cursors'[c] = cursors[c] \/ \E i \in cursors[c].rem : cursors'[c] = [cursors[c] EXCEPT !.rem = @ \ {i}]
     ELSE cursors'[c] = cursors[c] \/ (~AtEnd(c) /\ cursors'[c] = [cursors[c] EXCEPT !.pos = @ + 1])
  ]_mcvars
InList == \A c \in DOMAIN cursors : cursors[c].kind \notin {"prods", "suggestion"} => cursors[c].pos \in 1..(Len(ListOf(cursors[c])) + 1)

(* C08, C09: what a new result holds *)
Holders(g) == {i \in 1..Len(Cat(cur)) : \E j \in 1..(Len(Feed(Cat(cur)[i])) - 4) : SubSeq(Feed(Cat(cur)[i]), j, j + 4) = g}
Unrestricted(q) == CASE q = Both -> IF cur = "A" THEN {1, 2} ELSE {1}
                     [] q = All -> IF cur = "A" THEN {1, 2, 3} ELSE {1, 2}
                     [] q = Candy -> IF cur = "A" THEN {3} ELSE {2}
                     [] OTHER -> {}
LastOp == hist'[Len(hist')]
ResultsExact == [][
  (Len(hist') > Len(hist) /\ LastOp.op = "search" /\ LastOp.c \in DOMAIN cursors') =>
     LET x == cursors'[LastOp.c]
         hc == hnd[LastOp.hc]
         ht == hnd[LastOp.ht]
     IN /\ x.a = cur
        /\ x.rem = {i \in Unrestricted(LastOp.q) :
              /\ \A item \in ht.on : i \in Members("tags", cur, item)
              /\ \A item \in hc.on : i \in Members("cats", cur, item)
              /\ \A k \in 1..Len(LastOp.filters) : Passes(Cat(cur), i, LastOp.filters[k])}
        /\ LastOp.order # <<>> => \A i, j \in x.rem : Before(Cat(cur), LastOp.order[1], i, j) => ~MayPrecede(x.key, j, i)
  ]_mcvars
=============================================================================
