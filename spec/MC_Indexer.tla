----------------------------- MODULE MC_Indexer -----------------------------
(***************************************************************************)
(* The indexing program in its directory: a catalogue file may be put      *)
(* there, taken away or spoilt, the index file may be taken away, replaced *)
(* by something else or made unwritable, and the program may be run, in    *)
(* every order (C21).  hist is the script that led here.                   *)
(***************************************************************************)
EXTENDS Engine, Json
CONSTANTS Depth, Emit

VARIABLES
  input,     \* "missing", "bad", "lacking", or the name of a catalogue
  place,     \* the index file can be written
  made,      \* what out.test is the index of, by history: "" unknown or nothing
  hist
mcvars == <<vars, input, place, made, hist>>

O(n, vs) == [name |-> n, values |-> vs]
R(id, desc, title, price, tags, opts, images) ==
  [desc |-> desc, title |-> title, vendor |-> <<118>>, id |-> id, tags |-> tags, opts |-> opts, price |-> price, images |-> images, feats |-> <<>>]
Content ==
  [A |-> << R(<<49>>, <<97,108,112,104,97>>, <<98>>, 8000, <<<<97>>>>, <<O(<<115>>, <<<<120>>>>)>>, <<<<120>>>>) >>,
   B |-> << R(<<49>>, <<98,114,97,118,111>>, <<>>, 4250, <<>>, <<>>, <<>>),
            R(<<50>>, <<99,97,110,100,121>>, <<34,92,10>>, 990, <<<<97>>, <<98>>>>, <<O(<<115>>, <<<<121>>, <<120>>>>)>>, <<<<121>>, <<120>>>>) >>,
   E |-> <<>>]
Inputs == {"missing", "bad", "lacking"} \cup DOMAIN Content
Says(i) == IF i \in DOMAIN Content THEN <<Content[i]>> ELSE <<>>

ASSUME Emit => PrintT(<<"CATALOGUES", ToJson(Content)>>)

Op(r) == hist' = Append(hist, r)
MCInit == Init /\ input = "missing" /\ place = TRUE /\ made = "" /\ hist = <<>>

DoPut == \E i \in Inputs \ {input} : /\ input' = i /\ Op([op |-> "put", i |-> i]) /\ UNCHANGED <<vars, place, made>>
(* taken away, or replaced by something that is not an index file *)
DoClear == \E how \in {"clear", "litter"} :
   OutputGone /\ place' = TRUE /\ made' = "" /\ Op([op |-> how]) /\ UNCHANGED input
DoBlock == place /\ OutputGone /\ place' = FALSE /\ made' = "" /\ Op([op |-> "block"]) /\ UNCHANGED input
DoRun ==
  LET done == Says(input) # <<>> /\ place
      cat == IF done THEN Content[input] ELSE <<>>
  IN /\ RunIndexer(Says(input), place, done, ~done, cat, IF done THEN SetToSeq(TagSet(cat)) ELSE <<>>)
     /\ made' = IF done THEN input ELSE made
     /\ Op([op |-> "run"])
     /\ UNCHANGED <<input, place>>
MCNext == /\ TLCGet("level") <= Depth
          /\ DoPut \/ DoClear \/ DoBlock \/ DoRun
MCSpec == MCInit /\ [][MCNext]_mcvars
StateOnly == <<input, place, made, DOMAIN arts, IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>
EmitScript == IF Emit THEN PrintT(<<"SCRIPT", ToJson(hist')>>) ELSE TRUE

---------------------------------------------------------------------------
(* The index file there is is that of the last catalogue indexed: whole     *)
OutputIsWhole ==
  /\ (made # "") <=> (OutFile \in DOMAIN arts)
  /\ OutFile \in DOMAIN arts => Cat(OutFile) = Content[made]
(* A run that fails leaves what there was, one that ends well replaces it *)
FailureKeeps == [][
  (Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "run") =>
     IF Says(input) = <<>> \/ ~place THEN arts' = arts
     ELSE Cat(OutFile)' = Says(input)[1]
  ]_mcvars
(* nothing but a run makes an index file *)
OnlyRunsMake == [][ made' \notin {"", made} => hist'[Len(hist')].op = "run" ]_mcvars
=============================================================================
