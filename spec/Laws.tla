-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The laws of equivalence and ordering, over recorded matrices of answers:  *)
(* every node of a graph compared to every node, both ways, each comparison  *)
(* with random numbers of its own.                                          *)
(*   m: <<variant, group, kind, matrix>>; an entry is 0 (equivalent), -1     *)
(*   (less), 1 (greater), 2 (different), or 9 (no answer).                   *)
(* acy: the whole graph is acyclic.                                         *)
(***************************************************************************)
EXTENDS GraphOps, TLC, Json, IOUtils
CONSTANT Chunks
Data == ndJsonDeserialize(IOEnv.DATA)
Total == Len(Data)
VARIABLES k, i
Lo(c) == ((c - 1) * Total) \div Chunks + 1
Hi(c) == (c * Total) \div Chunks
Init == k \in {c \in 1..Chunks : Lo(c) <= Hi(c)} /\ i = Lo(k)
Next == i < Hi(k) /\ i' = i + 1 /\ k' = k
Spec == Init /\ [][Next]_<<k, i>>
r == Data[i]
V == Nodes(r.g)
M(x) == r.m[x][4]
Vars == DOMAIN r.m

Answers == \A x \in Vars : \A p, q \in V : M(x)[p][q] # 9
Reflexive == \A x \in Vars : \A p \in V : M(x)[p][p] = 0
Symmetric == \A x \in Vars : \A p, q \in V : M(x)[p][q] = 0 <=> M(x)[q][p] = 0
TransitiveEq == \A x \in Vars : \A p, q \in V : M(x)[p][q] = 0 =>
                   \A s \in V : M(x)[q][s] = 0 <=> M(x)[p][s] = 0
\* All variants draw the same lines.
Agree == \A x \in Vars : \A p, q \in V : M(x)[p][q] = 0 <=> M(1)[p][q] = 0
\* Lawful ordering: breadth-first everywhere, all where there are no cycles.
Ordered == {x \in Vars : r.m[x][3] = "ord" /\ (r.m[x][2] \in {"cycbf", "bf"} \/ (r.acy /\ r.m[x][2] \in {"cycdf", "df"}))}
Reversed == \A x \in Ordered : \A p, q \in V : M(x)[p][q] = -M(x)[q][p]
TransitiveLt == \A x \in Ordered : \A p, q \in V : M(x)[p][q] = -1 =>
                   \A s \in V : M(x)[q][s] \in {-1, 0} => M(x)[p][s] = -1
\* ... which, by C04, all variants walking the same way agree on.
SameOrder == \A x, y \in Ordered :
    (r.m[x][2] \in {"cycbf", "bf"} <=> r.m[y][2] \in {"cycbf", "bf"}) => M(x) = M(y)
=============================================================================
