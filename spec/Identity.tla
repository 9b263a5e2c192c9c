------------------------------ MODULE Identity ------------------------------
(***************************************************************************)
(* RefId.  refs: what each of the references refers to, <<address, metadata>>*)
(* (numbered by the recorder); ops[p][q]: the answers <<eq, ne, lt, le, gt,   *)
(* ge, cmp, partial_cmp>> of comparing the p-th to the q-th (orderings as     *)
(* -1, 0, 1; 9 for no answer); hash: numbered hashes; sets: sizes of a        *)
(* hash set and an ordered set of them all.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Chunks
Data == ndJsonDeserialize(IOEnv.DATA)
Total == Len(Data)
VARIABLES k, i
Lo(c) == ((c - 1) * Total) \div Chunks + 1
Hi(c) == (c * Total) \div Chunks
Init == k \in {c \in 1..Chunks : Lo(c) <= Hi(c)} /\ i = Lo(k)
Next == i < Hi(k) /\ i' = i + 1 /\ k' = k
Spec == Init /\ [][Next]_<<k, i>>
r == Data[i]
P == 1..Len(r.refs)
Op(p, q, o) == r.ops[p][q][o]
SameObject(p, q) == r.refs[p] = r.refs[q]
EqualIffSame == \A p, q \in P : /\ Op(p, q, 1) = (IF SameObject(p, q) THEN 1 ELSE 0)
                                /\ Op(p, q, 2) = 1 - Op(p, q, 1)
HashAgrees == \A p, q \in P : SameObject(p, q) => r.hash[p] = r.hash[q]
OperatorsAgree == \A p, q \in P :
    LET c == Op(p, q, 7) IN
    /\ c \in {-1, 0, 1}
    /\ Op(p, q, 8) = c
    /\ (c = 0) = (Op(p, q, 1) = 1)
    /\ Op(p, q, 3) = (IF c < 0 THEN 1 ELSE 0)
    /\ Op(p, q, 4) = (IF c <= 0 THEN 1 ELSE 0)
    /\ Op(p, q, 5) = (IF c > 0 THEN 1 ELSE 0)
    /\ Op(p, q, 6) = (IF c >= 0 THEN 1 ELSE 0)
TotalOrder == /\ \A p, q \in P : Op(p, q, 7) = -Op(q, p, 7)
              /\ \A p, q \in P : Op(p, q, 7) = -1 => \A s \in P : Op(q, s, 7) \in {-1, 0} => Op(p, s, 7) = -1
Sets == \A x \in DOMAIN r.sets : r.sets[x] = Cardinality({r.refs[p] : p \in P})
=============================================================================
