----------------------------- MODULE BigClasses -----------------------------
(***************************************************************************)
(* Big histories of the slow-phase memory that join n nodes into one class,  *)
(* in many orders; recorded is what came of them.                            *)
(*   worst: <<members, longest chain>> of classes at several moments         *)
(*   steps: how often a class cell was looked into (custom ones count)       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Chunks
Data == ndJsonDeserialize(IOEnv.DATA)
Total == Len(Data)
VARIABLES k, i
Lo(c) == ((c - 1) * Total) \div Chunks + 1
Hi(c) == (c * Total) \div Chunks
Init == k \in {c \in 1..Chunks : Lo(c) <= Hi(c)} /\ i = Lo(k)
Next == i < Hi(k) /\ i' = i + 1 /\ k' = k
Spec == Init /\ [][Next]_<<k, i>>
r == Data[i]
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

AllJoined == r.classes = 1 /\ r.seen = r.n /\ r.new = r.n - 1 /\ r.hits = r.ops - r.new /\ r.panics = 0
NoPanic == r.panics = 0
Logarithmic == \A x \in DOMAIN r.worst : r.worst[x][2] <= Log2(r.worst[x][1])
\* Each lookup touches a chain's cells a few times each.
Cheap == r.steps <= r.ops * (10 * Log2(r.n) + 40)
=============================================================================
