------------------------------ MODULE MC_Scale ------------------------------
(***************************************************************************)
(* The closed forms of Scale are what the full specification says, for     *)
(* every such catalogue of up to Most records.                             *)
(***************************************************************************)
EXTENDS Scale
CONSTANTS Most

VARIABLE P, z
mcvars == <<P, z, vars>>
MCInit == P = 0 /\ z \in {0, 1} /\ Init
MCNext == P < Most /\ P' = P + 1 /\ UNCHANGED <<z, vars>>
MCSpec == MCInit /\ [][MCNext]_mcvars

AnyOf(best) == [k \in 1..Len(best) |-> IF best[k] = {} THEN <<>> ELSE <<(CHOOSE x \in best[k] : TRUE).g>>]
Cat0 == ScaleCat(P, z)
ClosedForms ==
  With(TLCEval(Cat0), LAMBDA cat :
  With(TLCEval(IndexOf(cat, 5)), LAMBDA ix :
  With(TLCEval(BestOf(ix, Windows(Query5, 5))), LAMBDA best :
  With(TLCEval(Found(Hits(ix, best, AnyOf(best)))), LAMBDA found :
    /\ \A tag \in -1..3, opt \in -1..4, order \in OrderNames :
         With(TLCEval(PositionsFast(cat, order)), LAMBDA pos :
         With({i \in found : /\ tag >= 0 => i \in TagMembers(cat, TagName(tag))
                             /\ opt >= 0 => i \in OptionMembers(cat, SizeName, OptName(opt))}, LAMBDA kept :
           P >= 4 => Spelled(ScaleFound(P, z, tag, opt, order)) = SetToSortSeq(kept, LAMBDA i, j : pos[i] < pos[j])))
    /\ \A order \in OrderNames : Spelled(ScaleOrder(P, z, order)) = Positions(cat, order)
    /\ \A tag \in 0..3 : {i \in 1..P : \E k \in 1..Len(Selected(P, FALSE, tag, -1)) : i \in Range1(Spelled(Selected(P, FALSE, tag, -1)))} = TagMembers(cat, TagName(tag))
    /\ \A opt \in 0..4 : Range1(Spelled(Selected(P, FALSE, -1, opt))) = OptionMembers(cat, SizeName, OptName(opt))
    /\ \A k \in 1..Len(ix.cats) : ix.cats[k].name = SizeName /\ \A j \in 1..Len(ix.cats[k].opts) : ix.cats[k].opts[j].name = OptName(j % 5)
    /\ P >= 4 => BagToSeq(Posting(ix.posts, Query5, P)) = Concat([k \in 1..Len(Spelled(Selected(P, TRUE, -1, -1))) |-> <<Spelled(Selected(P, TRUE, -1, -1))[k], Spelled(Selected(P, TRUE, -1, -1))[k]>>])))))
=============================================================================
