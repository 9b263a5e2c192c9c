------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* Families of graphs of any size.  For each, what comparing the two copies  *)
(* must answer and how much it may do, in closed form; that the closed forms *)
(* are those of the walks defined in GraphOps is checked for all small       *)
(* members by MCFamilies.  Nodes are numbered 2 * x + side from 0, as the    *)
(* recorder does.                                                          *)
(*   chain   n levels, the p-th of the w edges of a level goes on            *)
(*   degen   n levels, all w edges go to the next;  ring: cyclically         *)
(*   cycles  cycles of n and of w nodes, two edges each                      *)
(*   grid    n by n nodes, edges down and right                              *)
(*   tree    complete tree of n nodes, w edges each                          *)
(*   two     the same tree with two differences, at nodes p and q             *)
(*   fan     n nodes of w leaves each, differences at nodes p and q            *)
(*   broom   n chains of 1 + w nodes each, the p-th with q more               *)
(*   wide    n leaves                                                        *)
(*   unroll  a ring of n against an endless chain whose w-th node differs    *)
(*   uneven  below p levels, a node of n leaves against one of w              *)
(***************************************************************************)
EXTENDS GraphOps, TLC

MinOf(x, y) == IF x < y THEN x ELSE y

(***************************************************************************)
(* Answers.                                                                 *)
(***************************************************************************)
RECURSIVE Below(_, _, _, _)       \* nodes lo..hi of the tree and all below
Below(lo, hi, n, w) ==
    IF lo >= n THEN 0 ELSE MinOf(hi, n - 1) - lo + 1 + Below(lo * w + 1, hi * w + w, n, w)
RECURSIVE Pre(_, _, _)            \* position of x in pre-order, from 1
Pre(x, n, w) ==
    IF x = 0 THEN 1
    ELSE LET par == (x - 1) \div w
             fst == par * w + 1
             \* the subtrees to the left of x, all below the same parent
             left == IF x = fst THEN 0 ELSE Below(fst, x - 1, n, w)
         IN Pre(par, n, w) + left + 1

\* The same of a fan.
PreFan(x, n, w) ==
    IF x = 0 THEN 1
    ELSE IF x <= n THEN 2 + (x - 1) * (w + 1)
    ELSE LET m == ((x - n - 1) \div w) + 1
             i == (x - n - 1) % w
         IN 2 + (m - 1) * (w + 1) + 1 + i
Position(x, r) == IF r.fam = "fan" THEN PreFan(x, r.n, r.w) ELSE Pre(x, r.n, r.w)

Differs(r) == IF r.fam = "uneven" THEN r.n # r.w ELSE r.differ \/ r.fam = "unroll"
\* The one of two differences that comes first.
First(r, bf) ==
    IF bf THEN MinOf(r.p, r.q)
    ELSE IF Position(r.p, r) < Position(r.q, r) THEN r.p ELSE r.q
\* The last node of the p-th chain.
BroomEnd(r) == IF r.q > 0 THEN r.n + r.n * r.w + r.q ELSE IF r.w > 0 THEN r.n + r.p * r.w ELSE r.p
Culprit(r, bf) ==            \* left, right
    CASE r.fam = "chain"  -> LET x == (r.n - 1) * (r.w + 1) IN <<2 * x, 2 * x + 1>>
      [] r.fam \in {"degen", "ring"} -> <<2 * (r.n - 1), 2 * (r.n - 1) + 1>>
      [] r.fam = "cycles" -> <<2 * ((r.w - 1) % r.n), 2 * (r.w - 1) + 1>>
      [] r.fam = "grid"   -> <<2 * (r.n * r.n - 1), 2 * (r.n * r.n - 1) + 1>>
      [] r.fam = "tree"   -> <<2 * (r.n - 1), 2 * (r.n - 1) + 1>>
      [] r.fam \in {"two", "fan"} -> <<2 * First(r, bf), 2 * First(r, bf) + 1>>
      [] r.fam = "broom"  -> <<2 * BroomEnd(r), 2 * BroomEnd(r) + 1>>
      [] r.fam = "wide"   -> <<2 * r.n, 2 * r.n + 1>>
      [] r.fam = "unroll" -> <<2 * (r.w % r.n), 2 * r.w + 1>>
Answer(r, bf) ==
    CASE ~Differs(r) -> Eq
      [] Differs(r) /\ r.kind = "bool" -> <<"ne">>
      [] Differs(r) /\ r.kind = "ord"  -> IF r.fam = "uneven" /\ r.n > r.w THEN <<"gt">> ELSE <<"lt">>
      [] Differs(r) /\ r.kind = "rich" /\ r.fam = "uneven" -> IF r.n < r.w THEN AmtLt ELSE AmtGt
      [] Differs(r) /\ r.kind = "rich" /\ r.fam # "uneven" -> <<"loc", Culprit(r, bf)[1], Culprit(r, bf)[2]>>

(***************************************************************************)
(* Pairs the plain walk visits (in the families without sharing).            *)
(***************************************************************************)
Plain(r, bf) ==
    CASE r.fam = "chain" ->
           IF ~r.differ THEN r.n + (r.n - 1) * (r.w - 1)
           ELSE IF ~bf THEN r.n + (r.n - 1) * r.p
           ELSE IF r.n = 1 THEN 1 ELSE r.n + (r.n - 2) * (r.w - 1) + r.p
      [] r.fam = "wide"   -> 1 + r.n
      [] r.fam = "tree"   -> IF r.differ /\ ~bf THEN Pre(r.n - 1, r.n, r.w) ELSE r.n
      [] r.fam \in {"two", "fan"} ->
           IF ~r.differ THEN (IF r.fam = "two" THEN r.n ELSE 1 + r.n + r.n * r.w)
           ELSE IF bf THEN First(r, bf) + 1 ELSE Position(First(r, bf), r)
      [] r.fam = "broom"  ->
           IF ~r.differ THEN 1 + r.n + r.n * r.w + r.q
           ELSE IF ~bf THEN 1 + r.p * (1 + r.w) + r.q
           ELSE IF r.q > 0 THEN 1 + r.n + r.n * r.w + r.q
           ELSE 1 + r.n * r.w + r.p
      [] r.fam = "unroll" -> r.w + 1
      [] r.fam = "uneven" -> r.p + 1 + MinOf(r.n, r.w)

NoSharing(r) == r.fam \in {"chain", "wide", "tree", "two", "fan", "broom", "unroll", "uneven"}

\* Of all variants, the precheck included.
Total(r) ==
    LET main == Plain(r, r.recur = "queue")
        pre  == Plain(r, r.prerecur = "queue")
    IN IF r.descend = "limited" THEN MinOf(main, r.lim)
       ELSE IF ~r.pre THEN main
       ELSE IF pre <= r.P THEN pre ELSE r.P + main
\* Whether the answer is that of a breadth-first walk.
ByBreadth(r) == IF r.pre /\ NoSharing(r) /\ Plain(r, r.prerecur = "queue") <= r.P THEN r.prerecur = "queue" ELSE r.recur = "queue"
OutOfLimit(r) == r.descend = "limited" /\ Plain(r, r.recur = "queue") > r.lim

(***************************************************************************)
(* Bounds on work where structure is shared.                                *)
(***************************************************************************)
Branches(r) ==
    CASE r.fam = "degen"  -> 2 * (r.n - 1)
      [] r.fam = "ring"   -> 2 * r.n
      [] r.fam = "cycles" -> r.n + r.w
      [] r.fam = "grid"   -> 2 * (r.n * r.n - 1)
Width(r) == IF r.fam \in {"degen", "ring"} THEN r.w ELSE 2
WithinMost(r) ==
    WithinVisits(r.cmps - (IF r.pre THEN r.P ELSE 0), Branches(r), Width(r), r.S, r.F)

(***************************************************************************)
(* Iterators pending at once: lazily, and dropped with their last edge.      *)
(***************************************************************************)
RECURSIVE Depth(_, _)
Depth(x, w) == IF x = 0 THEN 0 ELSE 1 + Depth((x - 1) \div w, w)
Pending(r, recur) ==
    CASE r.fam = "chain"  -> IF recur = "queue" THEN (IF r.p = r.w - 1 THEN 1 ELSE 2)
                             ELSE IF recur = "stack" /\ r.p = r.w - 1 THEN 1 ELSE r.n
      [] r.fam = "wide"   -> 1
      [] r.fam \in {"tree", "two"} -> IF recur = "queue" THEN (r.n + r.w - 2) \div r.w + 1 ELSE Depth(r.n - 1, r.w) + 1
      [] r.fam = "fan"    -> IF recur = "queue" THEN r.n + 1 ELSE 3
      [] r.fam = "broom"  -> IF recur = "queue" THEN r.n + 1 ELSE IF recur = "stack" THEN 2 ELSE 2 + r.w + r.q
      [] r.fam = "unroll" -> IF recur = "call" THEN r.w + 1 ELSE 1
      [] r.fam = "uneven" -> IF recur = "call" THEN r.p + 1 ELSE 1
      [] OTHER -> DescentBound(Branches(r), r.S, r.F) + (IF r.pre THEN r.P ELSE 0) + 1
MostPending(r) ==
    LET x == Pending(r, r.recur)
        y == IF r.pre THEN Pending(r, r.prerecur) ELSE 0
    IN IF x > y THEN x ELSE y

(***************************************************************************)
(* Memory: what is pending, and, for those that record, the nodes that can be *)
(* recorded (both sides).  In bytes, for nodes of 16 bytes: 48 for an         *)
(* iterator and twice that with a vector's spare capacity; for a recorded     *)
(* node two words of key and cell, at most four times with a map that grows,   *)
(* and the cell.                                                           *)
(***************************************************************************)
Keys(r) ==
    CASE r.fam = "chain"  -> 2 * r.n
      [] r.fam = "wide"   -> 2
      [] r.fam \in {"tree", "two"} -> 2 * ((r.n - 2) \div r.w + 1)
      [] r.fam = "fan"    -> 2 * (r.n + 1)
      [] r.fam = "broom"  -> 2 * (1 + r.n + r.n * r.w + r.q)
      [] r.fam = "unroll" -> r.n + r.w + 1
      [] r.fam = "uneven" -> 2 * (r.p + 1)
      [] OTHER -> Branches(r)
MostBytes(r) ==
    128 * MinOf(MostPending(r), r.cmps) + (IF r.descend = "interleave" THEN 262144 + 160 * Keys(r) ELSE 65536)

=============================================================================
