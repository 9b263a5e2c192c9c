---------------------------- MODULE EndlessTrace ----------------------------
(* What the real code compared in graphs without end, against Endless.       *)
EXTENDS Endless, Json, IOUtils
CONSTANTS Chunks
Recs == ndJsonDeserialize(IOEnv.DATA)
VARIABLE i
r == Recs[i]
Init == i \in 1..Min2(Chunks, Len(Recs))
Next == i + Chunks <= Len(Recs) /\ i' = i + Chunks
Spec == Init /\ [][Next]_i

Finds == r.out = Answer(r)
\* In order, nothing missing, nothing after the difference.
Order ==
    /\ r.nruns = Len(r.runs)
    /\ IF Skips(r)
       THEN LET n == Size(Before(r)) IN
            /\ Norm(Take(r.runs, n)) = Norm(Before(r))
            /\ Norm(Once(Drop(r.runs, n))) = Norm(Once(Answering(r)))
            /\ Size(Drop(r.runs, n)) <= Size(Answering(r))
       ELSE r.runs = Norm(Before(r) \o Answering(r))
\* Only counterparts are compared, and edges only asked for of nodes compared.
Counterparts == r.odd = 0
NothingKept == r.leaked = 0
=============================================================================
