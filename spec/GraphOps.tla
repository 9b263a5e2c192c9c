------------------------------ MODULE GraphOps ------------------------------
(***************************************************************************)
(* The mathematics the library's promises are stated in.                    *)
(*                                                                          *)
(* A graph is a record  [lab |-> <<l1, ..., ln>>, adj |-> <<s1, ..., sn>>]:  *)
(* node x (1..n; its identity) carries  the label lab[x] and the     *)
(* ordered edges adj[x].  Both arguments of a comparison live in the same    *)
(* graph, so sharing between them, cycles through both, and comparing a      *)
(* node with itself are ordinary cases.                                      *)
(*                                                                          *)
(* Results:  <<"eq">>            equivalent                                 *)
(*           <<"loc", a, b>>     nodes a and b differ in their own values    *)
(*           <<"amt", "lt"|"gt">> left node has fewer / more edges           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Eq == <<"eq">>
AmtLt == <<"amt", "lt">>
AmtGt == <<"amt", "gt">>

N(g) == Len(g.lab)
Nodes(g) == 1..N(g)
Deg(g, x) == Len(g.adj[x])

(* What one visit of the pair (a, b) establishes about the two nodes         *)
(* themselves: their own values first, then whether exactly one of them has  *)
(* any edges at all.                                                         *)
Local(g, a, b) ==
    CASE a = b                                 -> Eq
      [] a # b /\ g.lab[a] # g.lab[b]          -> <<"loc", a, b>>
      [] a # b /\ g.lab[a] = g.lab[b] /\ Deg(g, a) = 0 /\ Deg(g, b) > 0 -> AmtLt
      [] a # b /\ g.lab[a] = g.lab[b] /\ Deg(g, a) > 0 /\ Deg(g, b) = 0 -> AmtGt
      [] OTHER -> Eq

Branch(g, a, b) == a # b /\ Local(g, a, b) = Eq /\ Deg(g, a) > 0

(* The i-th item (i from 1) that iterating the counterpart edges of (a, b)   *)
(* yields.                                                                   *)
Item(g, a, b, i) ==
    CASE i <= Deg(g, a) /\ i <= Deg(g, b) -> <<"pair", g.adj[a][i], g.adj[b][i]>>
      [] i <= Deg(g, a) /\ i >  Deg(g, b) -> AmtGt
      [] i >  Deg(g, a) /\ i <= Deg(g, b) -> AmtLt
      [] OTHER -> <<"end">>

(* A result as an Ordering (labels are compared as integers).                *)
AsOrd(g, r) ==
    CASE r[1] = "eq"  -> "eq"
      [] r[1] = "loc" -> IF g.lab[r[2]] < g.lab[r[3]] THEN "lt" ELSE "gt"
      [] r[1] = "amt" -> r[2]
      [] OTHER -> r[1]

(***************************************************************************)
(* Equivalence: the coarsest stable colouring (greatest bisimulation).       *)
(***************************************************************************)
RECURSIVE Refine(_, _, _)
Refine(g, col, fuel) ==
    LET Sig(x) == <<col[x], [i \in 1..Deg(g, x) |-> col[g.adj[x][i]]]>>
        sig    == [x \in Nodes(g) |-> Sig(x)]
        nxt    == [x \in Nodes(g) |->
                     CHOOSE y \in 1..x : /\ sig[y] = sig[x]
                                         /\ \A z \in 1..(y-1) : sig[z] # sig[x]]
    IN IF nxt = col \/ fuel = 0 THEN nxt ELSE Refine(g, nxt, fuel - 1)

Colour(g) ==
    LET key(x) == <<g.lab[x], Deg(g, x)>>
        c0 == [x \in Nodes(g) |->
                 CHOOSE y \in 1..x : /\ key(y) = key(x)
                                     /\ \A z \in 1..(y-1) : key(z) # key(x)]
    IN Refine(g, c0, N(g) + 1)

Bisim(g, a, b) == LET c == Colour(g) IN c[a] = c[b]

(* Same-colour nodes really are indistinguishable: the certificate check     *)
(* used where the colouring comes from outside (large graphs).  rep[c] is    *)
(* some node of colour c.                                                    *)
StableColouring(g, col, rep) ==
    \A x \in Nodes(g) :
       LET r == rep[col[x]] IN
         /\ col[r] = col[x]
         /\ g.lab[x] = g.lab[r]
         /\ Deg(g, x) = Deg(g, r)
         /\ \A i \in 1..Deg(g, x) : col[g.adj[x][i]] = col[g.adj[r][i]]

(* A path that tells two nodes apart (certificate of inequivalence).         *)
RECURSIVE Walk(_, _, _, _)
Walk(g, x, path, k) == IF k > Len(path) THEN x
                       ELSE IF path[k] > Deg(g, x) THEN 0
                       ELSE Walk(g, g.adj[x][path[k]], path, k + 1)
Distinguishes(g, a, b, path) ==
    LET x == Walk(g, a, path, 1)
        y == Walk(g, b, path, 1)
    IN x # 0 /\ y # 0 /\ (g.lab[x] # g.lab[y] \/ Deg(g, x) # Deg(g, y))

(***************************************************************************)
(* Reachability and acyclicity.                                             *)
(***************************************************************************)
Succ(g, S) == UNION {{g.adj[x][i] : i \in 1..Deg(g, x)} : x \in S}
RECURSIVE Close(_, _)
Close(g, S) == LET T == S \cup Succ(g, S) IN IF T = S THEN S ELSE Close(g, T)
Reach(g, S) == Close(g, S)
Acyclic(g, S) == \A x \in Reach(g, S) : x \notin Close(g, Succ(g, {x}))
BranchNodes(g, S) == {x \in Reach(g, S) : Deg(g, x) > 0}
MaxDeg(g, S) == LET D == {Deg(g, x) : x \in Reach(g, S)}
                IN CHOOSE d \in D : \A e \in D : e <= d

(***************************************************************************)
(* First differences.  Depth-first pre-order, on acyclic graphs: the first   *)
(* difference met when the two graphs are walked in lockstep, node values    *)
(* before edges and edges in increasing index order.                         *)
(***************************************************************************)
RECURSIVE Dfs(_, _, _), DfsKids(_, _, _, _)
Dfs(g, a, b) ==
    IF a = b THEN Eq
    ELSE IF Local(g, a, b) # Eq THEN Local(g, a, b)
    ELSE DfsKids(g, a, b, 1)
DfsKids(g, a, b, i) ==
    LET it == Item(g, a, b, i) IN
    CASE it[1] = "end"  -> Eq
      [] it[1] = "amt"  -> it
      [] it[1] = "pair" ->
           LET r == Dfs(g, it[2], it[3]) IN
           IF r # Eq THEN r ELSE DfsKids(g, a, b, i + 1)

(* How many counterpart pairs are traversed by that walk (every pair that is *)
(* looked at counts, identical ones included), up to and including the one   *)
(* that differs.  Returns <<result, count>>.                                 *)
RECURSIVE DfsN(_, _, _), DfsKidsN(_, _, _, _, _)
DfsN(g, a, b) ==
    IF Local(g, a, b) # Eq THEN <<Local(g, a, b), 1>>
    ELSE IF a = b THEN <<Eq, 1>>
    ELSE DfsKidsN(g, a, b, 1, 1)
DfsKidsN(g, a, b, i, acc) ==
    LET it == Item(g, a, b, i) IN
    CASE it[1] = "end"  -> <<Eq, acc>>
      [] it[1] = "amt"  -> <<it, acc>>
      [] it[1] = "pair" ->
           LET r == DfsN(g, it[2], it[3]) IN
           IF r[1] # Eq THEN <<r[1], acc + r[2]>>
                        ELSE DfsKidsN(g, a, b, i + 1, acc + r[2])

(* Breadth-first: level by level, left to right; the slot of a missing edge  *)
(* belongs to the level of the children.  On arbitrary (also cyclic) graphs: *)
(* a pair already seen earlier in the walk cannot hide the first             *)
(* difference, so repeated pairs are dropped and the walk is finite.         *)
BfsItems(g, a, b) ==
    LET k == IF Deg(g, a) < Deg(g, b) THEN Deg(g, a) ELSE Deg(g, b)
    IN [i \in 1..k |-> <<"pair", g.adj[a][i], g.adj[b][i]>>]
       \o (IF Deg(g, a) < Deg(g, b) THEN <<AmtLt>>
           ELSE IF Deg(g, a) > Deg(g, b) THEN <<AmtGt>> ELSE << >>)
Shows(g, it) == it[1] = "amt" \/ Local(g, it[2], it[3]) # Eq
ItemResult(g, it) == IF it[1] = "amt" THEN it ELSE Local(g, it[2], it[3])
\* One level after the other; a level without differences holds only pairs.
RECURSIVE BfsLevels(_, _, _)
BfsLevels(g, lvl, seen) ==
    IF lvl = << >> THEN Eq
    ELSE LET bad == {i \in DOMAIN lvl : Shows(g, lvl[i])} IN
      IF bad # {} THEN ItemResult(g, lvl[CHOOSE i \in bad : \A j \in bad : i <= j])
      ELSE LET below == [i \in DOMAIN lvl |-> BfsItems(g, lvl[i][2], lvl[i][3])]
               all   == FlattenSeq(below)
               known == seen \cup ToSet(lvl)
               next  == FoldLeft(LAMBDA acc, it :
                            IF it \in acc.known \/ (it[1] = "pair" /\ it[2] = it[3]) THEN acc
                            ELSE [out |-> Append(acc.out, it), known |-> acc.known \cup {it}],
                            [out |-> << >>, known |-> known], all)
           IN BfsLevels(g, next.out, known)
Bfs(g, a, b) == IF a = b THEN Eq ELSE BfsLevels(g, <<<<"pair", a, b>>>>, {})

(* Breadth-first walk without forgetting anything (identical pairs are still *)
(* not descended), counting traversed pairs.  Finite when the reachable part *)
(* is acyclic or a difference exists.                                        *)
RECURSIVE BfsN0(_, _, _)
BfsN0(g, q, acc) ==
    IF q = << >> THEN <<Eq, acc>>
    ELSE LET h == Head(q) IN
      IF h[1] = "amt" THEN <<h, acc>>
      ELSE LET a == h[2]
               b == h[3]
           IN IF Local(g, a, b) # Eq THEN <<Local(g, a, b), acc + 1>>
              ELSE BfsN0(g, Tail(q) \o (IF a = b THEN << >> ELSE BfsItems(g, a, b)), acc + 1)
BfsN(g, a, b) == BfsN0(g, <<<<"pair", a, b>>>>, 0)

(***************************************************************************)
(* The plain walk, breadth-first or depth-first, allowed `lim` visits (an    *)
(* amount mismatch is not a visit).  The result <<"fuel">> means that it was *)
(* still going after 4000 items.                                            *)
(***************************************************************************)
LimWalk(g, a, b, bf, lim) ==
    LET Start0 == [q |-> <<<<"pair", a, b>>>>, res |-> <<"going">>, visits |-> 0, cmps |-> 0]
        Do(acc) ==
          IF acc.res # <<"going">> THEN acc
          ELSE IF acc.q = << >> THEN [acc EXCEPT !.res = Eq]
          ELSE LET h == Head(acc.q)
                   t == Tail(acc.q)
               IN IF h[1] = "amt" THEN [acc EXCEPT !.res = h]
                  ELSE IF acc.visits = lim THEN [acc EXCEPT !.res = <<"limit">>]
                  ELSE LET x == h[2]
                           y == h[3]
                       IN IF x = y THEN [acc EXCEPT !.q = t, !.visits = @ + 1]
                          ELSE IF Local(g, x, y) # Eq
                          THEN [acc EXCEPT !.res = Local(g, x, y), !.visits = @ + 1, !.cmps = @ + 1]
                          ELSE [acc EXCEPT !.q = IF bf THEN t \o BfsItems(g, x, y) ELSE BfsItems(g, x, y) \o t,
                                           !.visits = @ + 1, !.cmps = @ + 1]
        Steps == (IF lim < 4000 THEN lim ELSE 4000) + 2
        fin == FoldLeft(LAMBDA acc, k : Do(acc), Start0, [k \in 1..Steps |-> k])
    IN IF fin.res = <<"going">> THEN [fin EXCEPT !.res = <<"fuel">>] ELSE fin

(***************************************************************************)
(* Work bounds of the cycle-safe variants.  B = distinct branch nodes        *)
(* reachable, s = slow limit, f = greatest fast limit.  Every slow,          *)
(* unseen-before pair merges two classes, so there are at most B - 1; a fast *)
(* run needs s of those in a row before it and descends at most f + 1 pairs. *)
(***************************************************************************)
DescentBound(B, s, f) ==
    LET m == IF B > 0 THEN B - 1 ELSE 0 IN m + (f + 1) * (m \div s)
\* v <= 1 + d * DescentBound(B, s, f), without numbers greater than TLC's.
CeilDiv(x, y) == IF x <= 0 THEN 0 ELSE (x - 1) \div y + 1
WithinDescents(v, B, s, f) ==
    LET m == IF B > 0 THEN B - 1 ELSE 0 IN CeilDiv(v - m, f + 1) <= m \div s
WithinVisits(v, B, d, s, f) ==
    v <= 1 \/ (d > 0 /\ WithinDescents(CeilDiv(v - 1, d), B, s, f))
=============================================================================
