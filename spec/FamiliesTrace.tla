---------------------------- MODULE FamiliesTrace ----------------------------
(* What the real code did on members of the families, against Families.      *)
EXTENDS Families, Json, IOUtils

CONSTANTS Chunks
Recs == ndJsonDeserialize(IOEnv.DATA)
StkMax == 16384
VARIABLE i
r == Recs[i]
Init == i \in 1..MinOf(Chunks, Len(Recs))
Next == i + Chunks <= Len(Recs) /\ i' = i + Chunks
Spec == Init /\ [][Next]_i

Ends == r.out \notin {<<"div">>, <<"panic">>}
Answers == IF OutOfLimit(r) THEN r.out = <<"limit">> ELSE r.out = Answer(r, ByBreadth(r))
\* Without sharing all is exact, whatever the variant and its random numbers.
Exact == NoSharing(r) => r.cmps = Total(r)
\* With sharing it is bounded.
Bounded == ~NoSharing(r) => WithinMost(r)
\* An edge is asked for at most twice, plus once for each end.
Wd(x) == CASE x.fam \in {"chain", "degen", "ring", "tree", "two"} -> x.w [] x.fam \in {"wide", "fan", "uneven"} -> x.n + x.w [] x.fam = "unroll" -> 1 [] OTHER -> 2
FewEdges == r.fam \notin {"wide", "fan", "uneven"} => r.edges <= r.cmps * 2 * (2 * Wd(r) + 2) + 8
\* Two nodes for each iterator pending, two in hand, two just fetched, and the roots kept.
Lazy == r.recur # "call" /\ ~(r.pre /\ r.prerecur = "call")
FewNodes == Lazy => r.live <= 2 * MostPending(r) + 8
NothingKept == r.leaked = 0
FewBytes == r.heap <= MostBytes(r)
NoBytesKept == r.kept = 0
SmallStack == Lazy => r.stk <= StkMax
=============================================================================
