------------------------------- MODULE Scale -------------------------------
(***************************************************************************)
(* Catalogues of very many records, given by a rule, and what their index  *)
(* answers in closed form: arithmetic progressions of product numbers.     *)
(* MC_Scale checks the closed forms against the full specification on      *)
(* every short catalogue of the kind; Trace uses them where spelling an    *)
(* index out would be hopeless.                                            *)
(***************************************************************************)
EXTENDS Engine

Pow10 == <<100000, 10000, 1000, 100, 10, 1>>
Six(i) == [k \in 1..6 |-> 48 + ((i \div Pow10[k]) % 10)]
Abc == <<97, 98, 99>>
Xyz == <<120, 121, 122>>
TagName(k) == IF k = 3 THEN <<114, 97, 114, 101>> ELSE <<116, 48 + k>>
OptName(k) == <<115, 48 + k>>
SizeName == <<83, 105, 122, 101>>

(* z = 1: all titles and prices alike *)
ScaleRec(i, P, z) ==
  [desc |-> IF i % 2 = 1 THEN Abc \o Abc \o Abc ELSE Xyz \o Xyz \o Xyz,
   title |-> IF z = 1 THEN Six(0) ELSE Six(P - i),
   vendor |-> <<118, 48 + (i % 7)>>,
   id |-> <<112>> \o Six(i),
   tags |-> <<TagName(i % 3)>> \o (IF i = P THEN <<TagName(3)>> ELSE <<>>),
   opts |-> <<[name |-> SizeName, values |-> <<OptName(i % 5)>>]>>,
   price |-> IF z = 1 THEN 10000 ELSE 1000 * i,
   images |-> IF i % 11 = 0 THEN <<<<117>> \o Six(i)>> ELSE <<>>,
   feats |-> <<>>]
ScaleCat(P, z) == [i \in 1..P |-> ScaleRec(i, P, z)]

(* A selection: found by the query for abcab (word) or all, of a tag (0..3, *)
(* -1 for any), of an option (0..4, -1 for any)                             *)
Wanted(i, P, word, tag, opt) ==
  /\ word => i % 2 = 1
  /\ tag \in 0..2 => i % 3 = tag
  /\ tag = 3 => i = P
  /\ opt \in 0..4 => i % 5 = opt

Asc(first, step, P) ==      \* first, first + step .. up to P, as runs <<start, step, count>>
  LET n == IF first > P THEN 0 ELSE (P - first) \div step + 1
  IN IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<<<first, 0, 1>>>> ELSE <<<<first, step, n>>>>
Turned(runs) == IF runs = <<>> \/ runs[1][2] = 0 THEN runs
                ELSE <<<<runs[1][1] + runs[1][2] * (runs[1][3] - 1), -runs[1][2], runs[1][3]>>>>
Selected(P, word, tag, opt) ==
  IF tag = 3 THEN (IF Wanted(P, P, word, tag, opt) THEN <<<<P, 0, 1>>>> ELSE <<>>)
  ELSE LET step == (IF word THEN 2 ELSE 1) * (IF tag >= 0 THEN 3 ELSE 1) * (IF opt >= 0 THEN 5 ELSE 1)
           first == CHOOSE i \in 1..step : Wanted(i, P, word, tag, opt)
       IN Asc(first, step, P)

Downwards(order, z) == z = 0 /\ order \in {"Alphabetical", "Price high to low"}
(* the search for abcab *)
ScaleFound(P, z, tag, opt, order) ==
  LET s == Selected(P, TRUE, tag, opt) IN IF Downwards(order, z) THEN Turned(s) ELSE s
(* positions, from 0, of the products in their order *)
ScaleOrder(P, z, order) == LET s == Asc(1, 1, P)
                               u == IF Downwards(order, z) THEN Turned(s) ELSE s
                           IN [k \in 1..Len(u) |-> <<u[k][1] - 1, u[k][2], u[k][3]>>]

Spelled(runs) == Concat([k \in 1..Len(runs) |-> [j \in 1..runs[k][3] |-> runs[k][1] + (j - 1) * runs[k][2]]])
Query5 == <<97, 98, 99, 97, 98>>
=============================================================================
