--------------------------------- MODULE Work ---------------------------------
(***************************************************************************)
(* How much a cycle-safe comparison does, whatever the graph, its size, the  *)
(* order of fetching, and the numbers drawn.                                 *)
(*                                                                          *)
(* Only what work depends on is here: how many counterparts are still owed a *)
(* visit, which representatives the classes of branch nodes have, and the    *)
(* ticker of the phases.  WorkProof proves the bound; MCWork checks that     *)
(* Compare, walk by walk, is one of these.                                   *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS Br,   \* the branch nodes reachable (their identities)
          D,    \* the most edges any of them has
          F,    \* FAST_LIMIT_MAX
          S     \* SLOW_LIMIT, at least 1

VARIABLES
    slots,    \* at least as many as visits still owed
    visits,
    merges,   \* descents of the slow phase
    fast,     \* descents of the fast phase
    draws,    \* how often a fast phase began
    tick,     \* the ticker
    reps      \* one representative of each class of branch nodes

wvars == <<slots, visits, merges, fast, draws, tick, reps>>

WInit == /\ slots = 1 /\ visits = 0 /\ merges = 0 /\ fast = 0 /\ draws = 0 /\ tick = 0
         /\ reps = Br

Look ==                                   \* one pair is visited
    /\ slots >= 1 /\ slots' = slots - 1
    /\ visits' = visits + 1
    /\ UNCHANGED <<merges, fast, draws, tick, reps>>

Open == \E k \in 0..D : slots' = slots + k     \* a pair's edges are admitted

InFast ==
    /\ tick >= 1 /\ tick' = tick - 1
    /\ Open /\ fast' = fast + 1
    /\ UNCHANGED <<visits, merges, draws, reps>>

IntoFast ==
    /\ tick <= -S /\ tick' \in 0..F
    /\ Open /\ fast' = fast + 1 /\ draws' = draws + 1
    /\ UNCHANGED <<visits, merges, reps>>

Hit ==
    /\ tick <= 0 /\ tick' = 0
    /\ UNCHANGED <<slots, visits, merges, fast, draws, reps>>

InSlow ==                                 \* unseen before: two classes become one
    /\ tick <= 0 /\ tick > -S /\ tick' = tick - 1
    /\ \E x, y \in reps : x # y /\ reps' = reps \ {x}
    /\ Open /\ merges' = merges + 1
    /\ UNCHANGED <<visits, fast, draws>>

Drop ==                                   \* the end, or fewer items than slots
    /\ \E k \in 0..slots : slots' = k
    /\ UNCHANGED <<visits, merges, fast, draws, tick, reps>>

WNext == Look \/ InFast \/ IntoFast \/ Hit \/ InSlow \/ Drop
WSpec == WInit /\ [][WNext]_wvars

\* Every visit, but for the roots', is of a counterpart that a descent opened;
\* how many descents there can be does not depend on the number of paths.
Descents(b) == LET m == IF b > 0 THEN b - 1 ELSE 0 IN m + (F + 1) * (m \div S)
Linear(b) == visits <= 1 + D * Descents(b)
==============================================================================
