------------------------------ MODULE GenFiles ------------------------------
(***************************************************************************)
(* Writes index files by the specification's own writer, for the real      *)
(* library to load: two files per catalogue, with map entries in opposite  *)
(* orders (C19, from any writer to this reader).                           *)
(***************************************************************************)
EXTENDS Observe, Json, IOUtils

Seeds == TLCEval(ndJsonDeserialize(IOEnv.SEEDS))

VARIABLE k
S == Seeds[(k + 1) \div 2]
File == EncFile(IndexOf(S.cat, S.n), S.tags, k % 2 = 0, OrderNamesCoded)
GInit == k = 0 /\ Init
GNext == /\ k < 2 * Len(Seeds) /\ k' = k + 1
         /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_<<k, vars>>
Written ==
  k > 0 =>
    LET b == TLCEval(File)
        d == DecodeFile(b)
    IN /\ Must("own file readable", d.ok /\ d.next = Len(b) + 1)
       /\ FileSays(d, IndexOf(S.cat, S.n), S.tags, OrderNamesCoded)
       /\ PrintT(<<"FILE", ToJson([cat |-> S.cat, n |-> S.n, tags |-> S.tags, bytes |-> b])>>)
=============================================================================
