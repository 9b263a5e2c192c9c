------------------------------- MODULE Endless -------------------------------
(***************************************************************************)
(* Graphs without end, given by rules, whose two sides differ at one place   *)
(* only.  What must have been compared by then, in order, node by node:      *)
(*                                                                          *)
(*   tree  k edges each, nodes numbered level by level; node d of the right  *)
(*         side has another label (how 0), one edge fewer (1), one more (2)  *)
(*         or no edges (3)                                                   *)
(*   comb  node 16 * l of level l has k leaves 16 * l + 1 .., then level     *)
(*         l + 1, then 16 * l + 15, which begins or joins an endless side    *)
(*         chain 16 * l + 15 -> 16 * (l + 1) + 15 -> ..; leaf j of level d    *)
(*         differs                                                          *)
(*   wide  node 0 has endlessly many edges, to 1, 2, ..., each of which has   *)
(*         endlessly many in turn; number d + 1 differs                      *)
(*                                                                          *)
(* Sequences of nodes are given as runs <<first, how many>>.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Min2(x, y) == IF x < y THEN x ELSE y
\* Adjacent runs that continue each other become one; empty ones go.
Norm(rs) == FoldLeft(LAMBDA acc, x :
                IF x[2] = 0 THEN acc
                ELSE IF acc # << >> /\ acc[Len(acc)][1] + acc[Len(acc)][2] = x[1]
                THEN [acc EXCEPT ![Len(acc)] = <<@[1], @[2] + x[2]>>]
                ELSE Append(acc, x), << >>, rs)
Size(rs) == FoldLeft(LAMBDA acc, x : acc + x[2], 0, rs)
Take(rs, n) == FoldLeft(LAMBDA acc, x :
                LET m == Min2(x[2], acc.left)
                IN IF m = 0 THEN acc ELSE [left |-> acc.left - m, out |-> Append(acc.out, <<x[1], m>>)],
                [left |-> n, out |-> << >>], rs).out
Drop(rs, n) == FoldLeft(LAMBDA acc, x :
                LET m == Min2(x[2], acc.left)
                IN [left |-> acc.left - m, out |-> IF m = x[2] THEN acc.out ELSE Append(acc.out, <<x[1] + m, x[2] - m>>)],
                [left |-> n, out |-> << >>], rs).out
\* Without immediate repetitions (of single nodes).
Once(rs) == FoldLeft(LAMBDA acc, x :
                IF acc # << >> /\ x[2] = 1 /\ acc[Len(acc)][1] + acc[Len(acc)][2] - 1 = x[1] THEN acc
                ELSE Append(acc, x), << >>, rs)

(***************************************************************************)
(* What is compared by a walk that reaches the difference.  0 of the walk    *)
(* forever: it never gets there; `most` caps how much of that is listed.     *)
(***************************************************************************)
\* The path of first edges of the tree: 0, 1, k + 1, ...
RECURSIVE PathTo(_, _, _), OnPath(_, _, _), DepthOnPath(_, _, _)
PathTo(k, x, n) == IF k = 1 THEN <<<<x, n>>>>
                   ELSE IF n = 0 \/ x > 1000000000 THEN << >> ELSE <<<<x, 1>>>> \o PathTo(k, x * k + 1, n - 1)
OnPath(k, x, d) == k = 1 \/ x = d \/ (x < d /\ OnPath(k, x * k + 1, d))
DepthOnPath(k, x, d) == IF k = 1 THEN d ELSE IF x = d THEN 0 ELSE 1 + DepthOnPath(k, x * k + 1, d)

Level(r, l) ==      \* of the comb, breadth-first
    IF l = 0 THEN <<<<0, 1>>>>
    ELSE <<<<16 * (l - 1) + 1, r.k>>, <<16 * l, 1>>>> \o [m \in 1..l |-> <<16 * (l - 1) + 15, 1>>]

WalkBf(r) ==
    CASE r.fam = "tree" -> (CASE r.how \in {0, 3} -> <<<<0, r.d + 1>>>>
                             [] r.how = 1 -> <<<<0, r.d * r.k + r.k>>>>
                             [] r.how = 2 -> <<<<0, r.d * r.k + r.k + 1>>>>)
      [] r.fam = "wide" -> <<<<0, r.d + 2>>>>
      [] r.fam = "comb" -> FlattenSeq([m \in 1..(r.d + 1) |-> Level(r, m - 1)]) \o <<<<16 * r.d + 1, r.j + 1>>>>

\* Does the depth-first walk ever get to the difference?
DfFinds(r) == CASE r.fam = "tree" -> (r.how \in {0, 3} /\ OnPath(r.k, 0, r.d)) \/ (r.how = 1 /\ r.k = 1)
                [] r.fam = "wide" -> r.d = 0
                [] r.fam = "comb" -> TRUE
\* As much of it as comes before the difference, or n comparisons.
WalkDf(r, n) ==
    CASE r.fam = "tree" -> IF DfFinds(r) THEN PathTo(r.k, 0, DepthOnPath(r.k, 0, r.d) + 1) ELSE PathTo(r.k, 0, n)
      [] r.fam = "wide" -> <<<<0, 2>>>>
      [] r.fam = "comb" -> [m \in 1..r.d |-> <<16 * (m - 1), r.k + 1>>] \o <<<<16 * r.d, r.j + 2>>>>

Difference(r) ==
    CASE r.fam = "tree" -> (CASE r.how = 0 -> <<"loc", 2 * r.d, 2 * r.d + 1>>
                             [] r.how \in {1, 3} -> <<"amt", "gt">>
                             [] r.how = 2 -> <<"amt", "lt">>)
      [] r.fam = "wide" -> <<"loc", 2 * (r.d + 1), 2 * (r.d + 1) + 1>>
      [] r.fam = "comb" -> LET x == 16 * r.d + 1 + r.j IN <<"loc", 2 * x, 2 * x + 1>>

Main(r) == IF r.bf THEN WalkBf(r) ELSE WalkDf(r, 0)
PreWalk(r) == IF r.prebf THEN WalkBf(r) ELSE WalkDf(r, r.P)
PreFinds(r) == r.pre /\ (r.prebf \/ DfFinds(r)) /\ Size(PreWalk(r)) <= r.P
LimitHits(r) == r.limited /\ Size(Main(r)) > r.lim

\* What is compared before the walk that answers.
Before(r) == IF r.pre /\ ~PreFinds(r) THEN Take(PreWalk(r), r.P) ELSE << >>
Answering(r) == IF PreFinds(r) THEN PreWalk(r)
                ELSE IF LimitHits(r) THEN Take(Main(r), r.lim) ELSE Main(r)
Answer(r) == IF LimitHits(r) THEN <<"limit">> ELSE Difference(r)
\* Only repeated pairs may be left out, and only by interleaving.
Skips(r) == r.fam = "comb" /\ r.inter /\ r.bf /\ ~PreFinds(r)
=============================================================================
