-------------------------------- MODULE MCWork --------------------------------
(* Compare's main walk does only what Work allows, so that the bound WorkProof *)
(* proves for all graphs and limits holds of Compare.  Checked over every       *)
(* graph of a small size.                                                     *)
EXTENDS MCCompare

Left(it) == LET d == IF Deg(g, it[1]) < Deg(g, it[2]) THEN Deg(g, it[1]) ELSE Deg(g, it[2])
            IN IF d < it[3] THEN 0 ELSE d - it[3] + 1
InMain == stage = "main"
WSlots == IF ~InMain THEN 1
          ELSE FoldLeft(LAMBDA acc, it : acc + Left(it), IF pc = "visit" THEN 1 ELSE 0, pend)
WVisits == cnt.visits - cnt.previsits
WFast == IF InMain THEN cnt.fast ELSE 0
WTick == IF InMain THEN tick ELSE 0
WReps(j) == {x \in Branches : cls[x] = x}

Wrk(Br, D, F, S) == INSTANCE Work WITH
    slots <- WSlots, visits <- WVisits, merges <- cnt.merges, fast <- WFast,
    draws <- cnt.draws, tick <- WTick, reps <- WReps(job)

DegOf(j) == MaxDeg(j.g, {j.a, j.b})
BrOf(j) == LET I(x) == IF j.ids = << >> THEN x ELSE j.ids[x]
           IN {I(x) : x \in BranchNodes(j.g, {j.a, j.b})}

WorksInit == (Running /\ pc = "visit" /\ cnt = Zero) =>
    \A j \in {job} : Wrk(BrOf(j), DegOf(j), j.F, j.S)!WInit
WorksStep == Running =>
    \A j \in {job} : \/ Wrk(BrOf(j), DegOf(j), j.F, j.S)!WNext
                     \/ UNCHANGED Wrk(BrOf(j), DegOf(j), j.F, j.S)!wvars
Works == [][WorksStep]_vars

\* The bound that the other modules use, which avoids great numbers, is the
\* one that is proved.
ASSUME \A v \in 0..40, b \in 0..5, d \in 0..3, f \in 0..3, s \in 1..3 :
         WithinVisits(v, b, d, s, f) <=> v <= 1 + d * DescentBound(b, s, f)
BoundHere == Running =>
    \A j \in {job} : Wrk(BrOf(j), DegOf(j), j.F, j.S)!Linear(Cardinality(BrOf(j)))

JobsAll == JobsInterleave \o JobsStack \o JobsPre
==============================================================================
