------------------------------ MODULE MC_NGram ------------------------------
(***************************************************************************)
(* Every small catalogue text, grown character by character, and in every  *)
(* state every gram, every window and every short query: the functional    *)
(* definitions of NGram agree with the declarative reading of C04-C07.     *)
(***************************************************************************)
EXTENDS Engine, Json
CONSTANTS N, Chars, Texts, Length, QLength, Emit

VARIABLE T        \* sequence of texts
mcvars == <<T, vars>>

MCInit == T = <<>> /\ Init
MCNext == /\ \/ Len(T) < Texts /\ T' = Append(T, <<>>)
             \/ \E c \in Chars : T # <<>> /\ Len(T[Len(T)]) < Length
                                 /\ T' = [T EXCEPT ![Len(T)] = Append(@, c)]
          /\ UNCHANGED vars
MCSpec == MCInit /\ [][MCNext]_mcvars

F == Forest(T, N)
PT == PostTree(T, N)
Rec0(t) == [desc |-> t, title |-> <<>>, vendor |-> <<>>, id |-> <<>>, tags |-> <<>>, opts |-> <<>>, price |-> 0, images |-> <<>>, feats |-> <<>>]
Catal == [i \in 1..Len(T) |-> Rec0(T[i])]

Occ(g) == Cardinality({p \in ToSet(Starts(T)) : p[2] + Len(g) - 1 <= Len(T[p[1]]) /\ SubSeq(T[p[1]], p[2], p[2] + Len(g) - 1) = g})
RECURSIVE CountAt(_, _)
CountAt(kids, g) == IF Head(g) \notin DOMAIN kids THEN 0
                    ELSE IF Len(g) = 1 THEN kids[Head(g)].n ELSE CountAt(kids[Head(g)].kids, Tail(g))
GramsUpTo(n) == UNION {[1..k -> Chars] : k \in 1..n}

(* C05 *)
TreeExact == \A g \in GramsUpTo(N) : CountAt(F, g) = Occ(g)
NoDeeper == \A g \in [1..(N + 1) -> Chars] : CountAt(F, g) = 0
RECURSIVE SubProb(_)
SubProb(kids) == \A c \in DOMAIN kids :
   /\ FoldLeft(LAMBDA a, d : a + kids[c].kids[d].n, 0, SetToSeq(DOMAIN kids[c].kids)) <= kids[c].n
   /\ kids[c].n >= 1
   /\ SubProb(kids[c].kids)
RootsSum == FoldLeft(LAMBDA a, c : a + F[c].n, 0, SetToSeq(DOMAIN F)) = TotalChars(T)

(* C04 *)
WindowCount(i, g) == Cardinality({j \in 1..Len(T[i]) : SubSeq(Pad(N) \o T[i], j, j + N - 1) = g})
PostExact ==
  \A g \in [1..N -> Chars \cup {0}] :
    LET b == PostAt(PT, g, 1)
        holders == {i \in 1..Len(T) : WindowCount(i, g) > 0}
    IN /\ DOMAIN b = holders
       /\ \A i \in holders : b[i] = WindowCount(i, g)
       /\ (Posting(PT, g, Len(T)) = NoPosting) = (holders = {} \/ Cardinality(holders) >= (4 * Len(T)) \div 5)
       /\ LET s == BagToSeq(b) IN \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]

(* C06: all correction scripts, without any pruning, over strings instead of tree nodes *)
Children(g) == {c \in Chars : Occ(Append(g, c)) > 0}
Step1(s) ==       \* s = [g, inp, cost, w, back]: back is the known text before the last character, or <<0>> if it may not be revised
  LET c == Head(s.inp)
      go(x, inp, cost) == [g |-> Append(s.g, x), inp |-> inp, cost |-> cost,
                           w |-> Mul(s.w, Occ(Append(s.known, x)), Occ(s.known)),
                           known |-> Append(s.known, x), back |-> s.known, may |-> TRUE]
      rest == IF s.inp = <<>> THEN <<>> ELSE Tail(s.inp)
      typed == IF s.inp # <<>> /\ c \in Children(s.known) THEN {go(c, rest, s.cost)} ELSE {}
      others == Children(s.known) \ (IF s.inp # <<>> THEN {c} ELSE {})
      left == s.cost < Budget(N)
      replaced == IF left THEN {go(x, rest, s.cost + 1) : x \in others} ELSE {}
      filled == IF left THEN {go(x, s.inp, s.cost + 2) : x \in others} ELSE {}
      skipped == IF left /\ s.inp # <<>> /\ s.may /\ c \in Children(s.back)
                 THEN {[g |-> [s.g EXCEPT ![Len(s.g)] = c], inp |-> rest, cost |-> s.cost + 1, w |-> s.w,
                        known |-> Append(s.back, c), back |-> <<>>, may |-> FALSE]}
                 ELSE {}
  IN typed \cup replaced \cup filled \cup skipped
RECURSIVE Close(_, _)
Close(S, done) ==
  LET full == {s \in S : Len(s.g) = N}
      open == S \ full
  IN IF open = {} THEN done \cup full ELSE Close(UNION {Step1(s) : s \in open}, done \cup full)
AllScripts(win) ==
  IF Occ(<<Head(win)>>) = 0 THEN {}
  ELSE Close({[g |-> <<Head(win)>>, inp |-> Tail(win), cost |-> 0, w |-> <<1, 1>>,
               known |-> <<Head(win)>>, back |-> <<>>, may |-> FALSE]}, {})
(* the first character has no character before it to revise *)
CorrectionsExact ==
  \A win \in [1..N -> Chars] :
    LET all == {[g |-> s.g, w |-> s.w] : s \in AllScripts(win)}
        got == Corrections(F, win)
    IN /\ got = Best(all)
       /\ \A x \in got : /\ x.g[1] = win[1]
                         /\ Less(<<0, 1>>, x.w) /\ ~Less(<<1, 1>>, x.w)
                         /\ Occ(x.g) > 0
       /\ Budget(N) = 0 => (IF Occ(win) > 0 THEN {x.g : x \in got} = {win} ELSE got = {})
       /\ Occ(win) > 0 => got # {}

(* C07 *)
Queries == UNION {[1..k -> Chars] : k \in 0..QLength}
Ix0 == TLCEval([cat |-> Catal, n |-> N, forest |-> F, total |-> TotalChars(T), posts |-> PT, cats |-> <<>>])
AnyChoice(best) == [k \in 1..Len(best) |-> IF best[k] = {} THEN <<>> ELSE <<(CHOOSE x \in best[k] : TRUE).g>>]
SearchExact ==
  LET ix == Ix0 IN
  \A q \in Queries :
    LET best == BestOf(ix, Windows(q, N))
        chosen == AnyChoice(best)
        hits == Hits(ix, best, chosen)
    IN /\ ChosenOk(best, chosen)
       /\ (Len(q) < N /\ (\A i \in 1..Len(T) : 0 \notin ToSet(T[i])) => Found(hits) = {})
       /\ Found(hits) = {i \in 1..Len(T) : \E k \in 1..Len(q) :
             chosen[k] # <<>> /\ WindowCount(i, chosen[k][1]) > 0
             /\ Cardinality({j \in 1..Len(T) : WindowCount(j, chosen[k][1]) > 0}) < (4 * Len(T)) \div 5}
       /\ \A i \in Found(hits) : Score(hits, i) >= 0 /\ Terms(hits, i) >= 1
---------------------------------------------------------------------------
(* Every state as a catalogue for the real library *)
EmitCase == Emit => PrintT(<<"CASE", ToJson([n |-> N, cat |-> Catal])>>)
=============================================================================
