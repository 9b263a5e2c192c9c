------------------------------- MODULE Index -------------------------------
(***************************************************************************)
(* Edges up to the end of the index type.                                   *)
(*  star:  roots of da and db leaves, whose diff-th pair differs; runs are   *)
(*         the maximal runs <<first, amount>> of consecutive child indices   *)
(*         in the order compared                                            *)
(*  graph: answers on a small graph, of which the index type only reaches    *)
(*         the first cap edges of each node                                 *)
(*  inc:   the provided types' increment                                     *)
(***************************************************************************)
EXTENDS GraphOps, TLC, Json, IOUtils
CONSTANT Chunks
Data == ndJsonDeserialize(IOEnv.DATA)
Total == Len(Data)
VARIABLES k, i
Lo(c) == ((c - 1) * Total) \div Chunks + 1
Hi(c) == (c * Total) \div Chunks
Init == k \in {c \in 1..Chunks : Lo(c) <= Hi(c)} /\ i = Lo(k)
Next == i < Hi(k) /\ i' = i + 1 /\ k' = k
Spec == Init /\ [][Next]_<<k, i>>
r == Data[i]
Less(x, y) == IF x < y THEN x ELSE y

PrecheckLimit == 400
Prechecked == r.fun \in {"cycle_safe_pre", "robust_pre"}
\* the root pair shows a difference by itself when only one has edges
RootDiffers == (r.da = 0) # (r.db = 0)
Common == Less(Less(r.da, r.db), r.cap)
Visited == IF RootDiffers THEN 0 ELSE IF r.diff < Common THEN r.diff + 1 ELSE Common
Answer == CASE ~RootDiffers /\ r.diff < Common -> "loc"
            [] (RootDiffers \/ (r.diff >= Common /\ Common < r.cap)) /\ r.da < r.db -> "lt"
            [] (RootDiffers \/ (r.diff >= Common /\ Common < r.cap)) /\ r.da > r.db -> "gt"
            [] OTHER -> "eq"
Aborted == Prechecked /\ 1 + Visited > PrecheckLimit
Runs == (IF Aborted THEN <<<<0, PrecheckLimit - 1>>>> ELSE << >>)
        \o (IF Visited > 0 THEN <<<<0, Visited>>>> ELSE << >>)
StarAnswers == r.what = "star" => r.res = Answer
StarEveryEdgeOnceInOrder ==
    r.what = "star" => /\ r.odd = 0
                       /\ r.runs = Runs
                       /\ r.roots = (IF Aborted THEN 2 ELSE 1)

Trunc(g, c) == [g EXCEPT !.adj = [x \in DOMAIN g.adj |-> SubSeq(g.adj[x], 1, Less(c, Len(g.adj[x])))]]
GraphAnswers ==
    r.what = "graph" =>
      LET gr == TLCEval(Trunc(r.g, r.cap))
          acy == Acyclic(gr, {r.a, r.b})
          bf == TLCEval(Bfs(gr, r.a, r.b))
          df == IF acy THEN TLCEval(Dfs(gr, r.a, r.b)) ELSE bf
      IN \A x \in DOMAIN r.o :
           LET f == r.o[x][1]
               o == r.o[x][2]
           IN CASE f \in {"deep_safe", "robust", "robust_pre"} -> o = bf
                [] acy -> o = df
                [] OTHER -> o[1] \in {"eq", "loc", "amt"} /\ (o = Eq <=> bf = Eq)

Increments ==
    r.what = "inc" => /\ r.wrong = << >>
                      /\ r.ended = <<0>>
                      /\ r.next = r.values - 1
=============================================================================
