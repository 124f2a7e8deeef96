------------------------------- MODULE NGram -------------------------------
(***************************************************************************)
(* The n-gram index: tree of character sequences with occurrence counts,   *)
(* postings, correction of a query window, and ranking.                    *)
(*                                                                         *)
(* A tree node is [n |-> occurrences, kids |-> [char -> node]]; the forest *)
(* of first characters is a kids function.  Weights are never stored: the  *)
(* weight of a node is n / n-of-its-parent, kept as an exact fraction.     *)
(***************************************************************************)
EXTENDS Number

NoKids == [c \in {} |-> 0]

(* A position <<i, j>> is the next character of text i to look at.  Group   *)
(* sorts positions (a sequence, without repetition) by that character and  *)
(* moves each on to the character after it.                                *)
Here(T, p) == T[p[1]][p[2]]
Group(T, pos) ==
  FoldLeft(LAMBDA f, p : [f EXCEPT ![Here(T, p)] = Append(@, <<p[1], p[2] + 1>>)],
           [c \in {Here(T, pos[i]) : i \in 1..Len(pos)} |-> <<>>], pos)

(* d: levels still to build *)
RECURSIVE BuildKids(_, _, _)
BuildKids(T, pos, d) ==
  IF d = 0 THEN NoKids
  ELSE LET g == TLCEval(Group(T, SelectSeq(pos, LAMBDA p : p[2] <= Len(T[p[1]]))))
       IN TLCEval([c \in DOMAIN g |-> [n |-> Len(g[c]), kids |-> BuildKids(T, g[c], d - 1)]])

Starts(T) == Concat([i \in 1..Len(T) |-> [j \in 1..Len(T[i]) |-> <<i, j>>]])

(* The tree of all substrings of length <= n of the texts T *)
Forest(T, n) == BuildKids(T, Starts(T), n)
TotalChars(T) == FoldLeft(LAMBDA a, t : a + Len(t), 0, T)

(* Postings: the windows are taken over each text preceded by n-1 pad      *)
(* characters (code point 0).  A leaf is the bag of products.              *)
Pad(n) == [i \in 1..(n - 1) |-> 0]
Padded(T, n) == [i \in 1..Len(T) |-> Pad(n) \o T[i]]

RECURSIVE PostKids(_, _, _)
PostKids(T, pos, d) ==
  LET g == TLCEval(Group(T, pos))
  IN TLCEval([c \in DOMAIN g |->
       IF d = 1
       THEN FoldLeft(LAMBDA f, p : [f EXCEPT ![p[1]] = @ + 1],
                     [i \in {g[c][k][1] : k \in 1..Len(g[c])} |-> 0], g[c])
       ELSE PostKids(T, g[c], d - 1)])

PostTree(T, n) == IF n = 0 THEN NoKids ELSE PostKids(Padded(T, n), Starts(T), n)

NoPosting == [i \in {} |-> 0]

RECURSIVE PostAt(_, _, _)
PostAt(tree, g, i) ==
  IF g[i] \notin DOMAIN tree THEN NoPosting
  ELSE IF i = Len(g) THEN tree[g[i]]
  ELSE PostAt(tree[g[i]], g, i + 1)

(* A gram is kept when fewer than floor(0.8 * products) products have it *)
Cutoff(products) == (4 * products) \div 5
Kept(bag, products) == Cardinality(DOMAIN bag) < Cutoff(products)
Posting(tree, g, products) ==
  LET bag == PostAt(tree, g, 1)
  IN IF Kept(bag, products) THEN bag ELSE NoPosting

(* The bag as the list stored in the index: product numbers ascending, each *)
(* as often as it occurs.                                                   *)
BagToSeq(bag) ==
  LET s == TLCEval(SetToSortSeq(DOMAIN bag, <))
  IN Concat([k \in 1..Len(s) |-> [j \in 1..bag[s[k]] |-> s[k]]])

RECURSIVE KeptCount(_, _, _)
KeptCount(tree, d, products) ==
  IF d = 0 THEN 0 ELSE IF d = 1 THEN Cardinality({c \in DOMAIN tree : Kept(tree[c], products)})
  ELSE FoldLeft(LAMBDA a, c : a + KeptCount(tree[c], d - 1, products), 0, SetToSeq(DOMAIN tree))

---------------------------------------------------------------------------
(* Exact fractions *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Frac(a, b) == LET g == Gcd(a, b) IN <<a \div g, b \div g>>
Mul(x, a, b) == LET u == Frac(a, b)
                    g == Gcd(x[1], u[2])
                    h == Gcd(u[1], x[2])
                IN <<(x[1] \div g) * (u[1] \div h), (x[2] \div h) * (u[2] \div g)>>
(* Comparison by continued fractions: no products, so nothing overflows *)
RECURSIVE FracLT(_, _, _, _)
FracLT(a, b, c, d) ==       \* a/b < c/d
  LET q == a \div b
      r == c \div d
  IN IF q # r THEN q < r
     ELSE LET x == a % b
              y == c % d
          IN IF y = 0 THEN FALSE
             ELSE IF x = 0 THEN TRUE
             ELSE FracLT(d, y, b, x)
Less(x, y) == FracLT(x[1], x[2], y[1], y[2])

(* Fixed point: millionths, rounded down, without overflow.  0 <= a <= b *)
RECURSIVE MicroDigits(_, _, _, _)
MicroDigits(a, b, k, acc) ==
  IF k = 0 THEN acc
  ELSE MicroDigits((a * 10) % b, b, k - 1, acc * 10 + ((a * 10) \div b))
MicroOf(a, b) == IF b > 200000000 THEN MicroDigits((a % b) \div 16, b \div 16, 6, a \div b)
                 ELSE MicroDigits(a % b, b, 6, a \div b)
Micro(x) == MicroOf(x[1], x[2])

Near(a, b, tol) == a - b <= tol /\ b - a <= tol

(* The code multiplies single precision numbers, so it cannot tell apart    *)
(* weights that differ by less than a few parts in ten million.  Weights   *)
(* with small denominators are never that close.                           *)
RECURSIVE Decimal(_, _, _)
Decimal(a, b, e) == IF a < b THEN Decimal(a * 10, b, e + 1) ELSE <<MicroOf(a, b), e>>
Significant(x) == IF x[2] > 200000000 THEN Decimal(x[1] \div 16 + 1, x[2] \div 16, 0) ELSE Decimal(x[1], x[2], 0)
Alike(x, y) ==
  /\ x[2] > 1000 \/ y[2] > 1000
  /\ LET u == Significant(x)
         v == Significant(y)
     IN CASE u[2] = v[2] -> Near(u[1], v[1], 12)
          [] u[2] = v[2] + 1 -> Near(u[1], 10 * v[1], 12)
          [] v[2] = u[2] + 1 -> Near(10 * u[1], v[1], 12)
          [] OTHER -> FALSE

Best(S) == {x \in S : \A y \in S : ~Less(x.w, y.w) \/ Alike(x.w, y.w)}

---------------------------------------------------------------------------
(* Correction of one window.  Mirrors the search tree the code walks: at    *)
(* each node the next typed character is followed if it exists; with budget *)
(* left, every other continuation may replace it (cost 1) or be filled in   *)
(* before it (cost 2, only needs one unit to be left), or the previous      *)
(* character may be skipped (cost 1).  Every result is a known gram g with  *)
(* its weight.                                                              *)
Budget(n) == n \div 3

RECURSIVE Correct(_, _, _, _, _, _, _, _)
Correct(inp, node, prev, used, n, w, g, idx) ==
  IF idx = n THEN {[g |-> g, w |-> w]}
  ELSE
   LET kids == node.kids
       entered == IF inp # <<>> /\ inp[1] \in DOMAIN kids THEN {inp[1]} ELSE {}
       rest == IF inp = <<>> THEN <<>> ELSE Tail(inp)
       Follow(c, input, cost) ==
          Correct(input, kids[c], <<node>>, cost, n, Mul(w, kids[c].n, node.n), Append(g, c), idx + 1)
       typed == UNION {Follow(c, rest, used) : c \in entered}
       more == Budget(n) > used
       other == IF more
                THEN UNION {Follow(c, rest, used + 1) \cup Follow(c, inp, used + 2)
                              : c \in DOMAIN kids \ entered}
                ELSE {}
       skip == IF more /\ inp # <<>> /\ prev # <<>> /\ inp[1] \in DOMAIN prev[1].kids
               THEN Correct(rest, prev[1].kids[inp[1]], <<>>, used + 1, n, w,
                            [g EXCEPT ![idx] = inp[1]], idx)
               ELSE {}
   IN Best(typed \cup other \cup skip)

(* All best corrections of a window; {} when there is none *)
Corrections(forest, win) ==
  IF win[1] \notin DOMAIN forest THEN {}
  ELSE Correct(Tail(win), forest[win[1]], <<>>, 0, Len(win), <<1, 1>>, <<win[1]>>, 1)

(* The windows of a query: as many as it has (lower-cased) characters *)
Windows(q, n) ==
  LET padded == Pad(n) \o Lower(q)
  IN [k \in 1..Len(Lower(q)) |-> SubSeq(padded, k, k + n - 1)]

=============================================================================
