------------------------------- MODULE Policy --------------------------------
(***************************************************************************)
(* What every variant of the algorithm does, whatever its policy: when pairs *)
(* are fetched (depth-first, breadth-first, or in any other order), when the *)
(* slow phase is used and when the fast one, when a precheck is given up,    *)
(* and in which order nodes give their edges, as long as both nodes of a     *)
(* pair use the same.                                                        *)
(*                                                                          *)
(* Node is the set of identities, of any size, also infinite;  kids[x] maps  *)
(* edge indexes (any set) to nodes; lab[x] is what equiv_modulo_edges        *)
(* compares.  PolicyProof proves for all of these that answers are right;    *)
(* MCRefine checks that Compare only does what is allowed here.             *)
(***************************************************************************)
CONSTANTS Node, Kids, Lab, A, B

VARIABLES
    todo,    \* pairs still to be visited
    uneven,  \* a difference of amounts of edges is waiting to be noticed
    same,    \* what is recorded as equivalent: an equivalence relation
    ans      \* "none", then "eq", "ne" or "limit"

avars == <<todo, uneven, same, ans>>

Pairs == Node \X Node
Ident == {p \in Pairs : p[1] = p[2]}

AInit == todo = {<<A, B>>} /\ uneven = FALSE /\ same = Ident /\ ans = "none"

SameValues(x, y) == Lab[x] = Lab[y]
SameAmount(x, y) == DOMAIN Kids[x] = DOMAIN Kids[y]
KidPairs(x, y) == {<<Kids[x][i], Kids[y][i]>> : i \in DOMAIN Kids[x] \cap DOMAIN Kids[y]}

\* The union of the classes of x and y.
Join(x, y) ==
    {p \in Pairs : \/ p \in same
                   \/ <<p[1], x>> \in same /\ <<y, p[2]>> \in same
                   \/ <<p[1], y>> \in same /\ <<x, p[2]>> \in same}

\* The visited pair may be pending a second time.
Without(x, y) == {todo, todo \ {<<x, y>>}}

\* Whatever the end leaves behind.
Dropped == todo' \subseteq todo /\ UNCHANGED <<uneven, same>>

Differ(x, y) ==         \* own values, or amounts of edges, found different
    /\ ~SameValues(x, y) \/ ~SameAmount(x, y)
    /\ x # y
    /\ ans' = "ne"
    /\ Dropped

Skip(x, y) ==           \* identical, or recorded as equivalent
    /\ <<x, y>> \in same
    /\ todo' \in Without(x, y)
    /\ UNCHANGED <<uneven, same, ans>>

Descend(x, y) ==
    /\ SameValues(x, y)
    /\ IF SameAmount(x, y) THEN \E t \in Without(x, y) : todo' = t \cup KidPairs(x, y)
       ELSE todo' \in SUBSET Pairs        \* no order of edges makes counterparts of all
    /\ uneven' = (uneven \/ ~SameAmount(x, y))
    /\ same' \in {same, Join(x, y)}
    /\ UNCHANGED ans

Visit(x, y) == Differ(x, y) \/ Skip(x, y) \/ Descend(x, y)

Restart ==              \* a precheck is given up
    /\ todo' = {<<A, B>>} /\ uneven' = FALSE /\ same' = Ident /\ ans' = ans

Uneven == uneven /\ ans' = "ne" /\ Dropped
Limit == ans' = "limit" /\ Dropped
End == todo = {} /\ ~uneven /\ ans' = "eq" /\ UNCHANGED <<todo, uneven, same>>

ANext == /\ ans = "none"
         /\ \/ \E p \in todo : Visit(p[1], p[2])
            \/ Restart \/ Uneven \/ Limit \/ End

ASame == UNCHANGED avars

ASpec == AInit /\ [][ANext]_avars

(***************************************************************************)
(* What is right: two nodes are equivalent when some bisimulation relates    *)
(* them.                                                                    *)
(***************************************************************************)
IsBisim(R) ==
    \A p \in R : /\ SameValues(p[1], p[2]) /\ SameAmount(p[1], p[2])
                 /\ KidPairs(p[1], p[2]) \subseteq R
Equivalent == \E R \in SUBSET Pairs : IsBisim(R) /\ <<A, B>> \in R

Right == /\ ans = "eq" => Equivalent
         /\ ans = "ne" => ~Equivalent
==============================================================================
