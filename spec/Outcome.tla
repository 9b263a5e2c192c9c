------------------------------- MODULE Outcome -------------------------------
(***************************************************************************)
(* Judges recorded answers of the real library.  Each record holds one pair  *)
(* of graphs, the distinct answers of every group of variants, how much was  *)
(* visited, and the answers of limited comparisons.  What the right answers  *)
(* are is worked out here, from GraphOps alone; for graphs too large to      *)
(* colour quickly a certificate found by the recorder is checked instead.    *)
(*                                                                          *)
(* Each state is one record; the records are cut into chunks that TLC's      *)
(* workers walk in parallel.                                                 *)
(***************************************************************************)
EXTENDS GraphOps, TLC, Json, IOUtils

CONSTANTS Chunks

Data == ndJsonDeserialize(IOEnv.DATA)
Total == Len(Data)

VARIABLES k, i     \* chunk, record

Lo(c) == ((c - 1) * Total) \div Chunks + 1
Hi(c) == (c * Total) \div Chunks
Init == /\ k \in {c \in 1..Chunks : Lo(c) <= Hi(c)}
        /\ i = Lo(k)
Next == i < Hi(k) /\ i' = i + 1 /\ k' = k
Spec == Init /\ [][Next]_<<k, i>>

r == Data[i]

(***************************************************************************)
(* What is right.                                                           *)
(***************************************************************************)
CertOK ==
    r.cert =>
      IF r.path = << >> /\ r.col # << >>
      THEN StableColouring(r.g, r.col, r.rep) /\ r.col[r.a] = r.col[r.b]
      ELSE Distinguishes(r.g, r.a, r.b, r.path)
Equivalent == IF r.cert THEN r.col # << >> ELSE Bisim(r.g, r.a, r.b)

Roots == {r.a, r.b}
\* Nodes may be the same one at different positions.
Id(x) == IF r.ids = << >> THEN x ELSE r.ids[x]
IsAcyclic == Acyclic(r.g, Roots)

\* An answer as the given kind of result shows it.
Show(kind, x) ==
    CASE kind = "rich" -> x
      [] kind = "ord"  -> <<AsOrd(r.g, x)>>
      [] kind = "bool" -> IF x = Eq THEN <<"eq">> ELSE <<"ne">>

Groups == DOMAIN r.o
\* o: <<group, kind, answer, name of a variant that gave it>>
Group(x) == r.o[x][1]
Kind(x) == r.o[x][2]
Ans(x) == r.o[x][3]

(***************************************************************************)
(* C01, C02: "equivalent" exactly for the indistinguishable.                 *)
(***************************************************************************)
CycGroups == {"cyc", "cycdf", "cycbf"}
VerdictOf(ans, eqv) == ans[1] \in {"eq", "ne", "lt", "gt", "loc", "amt"} /\ ((ans[1] = "eq") <=> eqv)
CycVerdicts ==
    LET eqv == Equivalent IN
    \A x \in Groups : Group(x) \in CycGroups => VerdictOf(Ans(x), eqv)
SimpleVerdicts ==
    LET eqv == Equivalent IN
    /\ \A x \in Groups : Group(x) \in {"df", "bf"} => VerdictOf(Ans(x), eqv)
    \* limited ones, when the limit did not bite
    /\ \A x \in DOMAIN r.l : r.l[x][4] # <<"limit">> => VerdictOf(r.l[x][4], eqv)

(***************************************************************************)
(* C04: the first difference in traversal order.                            *)
(***************************************************************************)
FirstDifference ==
    LET acy == IsAcyclic
        d   == IF acy THEN Dfs(r.g, r.a, r.b) ELSE Eq
        b   == Bfs(r.g, r.a, r.b)
    IN /\ \A x \in Groups :
          /\ Group(x) \in {"cycbf", "bf"} => Ans(x) = Show(Kind(x), b)
          /\ Group(x) \in {"cycdf", "df"} /\ acy => Ans(x) = Show(Kind(x), d)
          /\ Group(x) = "cyc" /\ Kind(x) = "rich" /\ Ans(x)[1] = "loc" =>
                Local(r.g, Ans(x)[2], Ans(x)[3]) = Ans(x)
          \* with a depth-first precheck then breadth-first: one or the other
          /\ Group(x) = "cyc" /\ acy => Ans(x) \in {Show(Kind(x), b), Show(Kind(x), d)}
       /\ \A x \in DOMAIN r.l :
            (acy /\ r.l[x][4] # <<"limit">>) =>
               r.l[x][4] = Show(r.l[x][3], IF r.l[x][1] = "queue" THEN b ELSE d)
\* Depth-first without memory, also where graphs are cyclic but differ: the
\* walk that ends, ends at its first difference.
FirstDifferenceDfsWalk ==
    \A x \in Groups : Group(x) = "df" /\ ~IsAcyclic =>
        Ans(x) = Show(Kind(x), LimWalk(r.g, r.a, r.b, FALSE, 100000).res)

(***************************************************************************)
(* C03: the work of the cycle-safe ones (own-value comparisons made).        *)
(* w: <<precheck?, P, F, S, most visits, variant>>                           *)
(***************************************************************************)
Work ==
    LET B == Cardinality({Id(x) : x \in BranchNodes(r.g, Roots)})
        d == MaxDeg(r.g, Roots)
    IN \A x \in DOMAIN r.w :
         WithinVisits(r.w[x][5] - (IF r.w[x][1] = 1 THEN r.w[x][2] ELSE 0), B, d, r.w[x][4], r.w[x][3])
Ends == \A x \in Groups : Ans(x) # <<"div">>

(***************************************************************************)
(* C05: limits.  l: <<recursion, limit, kind, answer, own-value comparisons, *)
(* variant>>                                                                *)
(***************************************************************************)
LimitedWalk(recur, lim) == LET w == LimWalk(r.g, r.a, r.b, recur = "queue", lim) IN <<w.res, w.cmps>>
Limits ==
    LET asked == {<<r.l[x][1], r.l[x][2]>> : x \in DOMAIN r.l}
        walks == TLCEval([p \in asked |-> LimitedWalk(p[1], p[2])])
    IN \A x \in DOMAIN r.l :
         LET w == walks[<<r.l[x][1], r.l[x][2]>>] IN
         /\ r.l[x][4] = (IF w[1] = <<"limit">> THEN <<"limit">> ELSE Show(r.l[x][3], w[1]))
         /\ r.l[x][5] = w[2]

NoPanic == /\ \A x \in Groups : Ans(x) # <<"panic">>
           /\ \A x \in DOMAIN r.l : r.l[x][4] # <<"panic">>
=============================================================================
