--------------------------------- MODULE Rng ---------------------------------
(***************************************************************************)
(* Numbers drawn from the provided generators.                               *)
(*   range: ends from lo on, each with the least and greatest number drawn    *)
(*   cover: one end, how many of its numbers came up in how many draws        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Chunks
Data == ndJsonDeserialize(IOEnv.DATA)
Total == Len(Data)
VARIABLES k, i
Lo(c) == ((c - 1) * Total) \div Chunks + 1
Hi(c) == (c * Total) \div Chunks
Init == k \in {c \in 1..Chunks : Lo(c) <= Hi(c)} /\ i = Lo(k)
Next == i < Hi(k) /\ i' = i + 1 /\ k' = k
Spec == Init /\ [][Next]_<<k, i>>
r == Data[i]
InRange == r.what = "range" =>
    /\ ~r.panicked
    /\ \A x \in DOMAIN r.min : 0 <= r.min[x] /\ r.max[x] < r.lo + x - 1
InRangeMixed == r.what = "mixed" => r.outside = 0 /\ ~r.panicked
Covered == r.what = "cover" => ~r.panicked /\ r.seen = r.end
\* The recorder drew enough for a number never to be missed by chance.
DrewEnough == r.what = "cover" => r.draws >= 30 * r.end
=============================================================================
