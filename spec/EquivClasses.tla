---------------------------- MODULE EquivClasses ----------------------------
(***************************************************************************)
(* The slow-phase memory, twice.                                            *)
(*                                                                          *)
(* Abstractly: which nodes have been seen, and the least equivalence that    *)
(* contains the recorded pairs (each class named by its least member).       *)
(*                                                                          *)
(* Concretely: a table from nodes to cells, a cell being a representative    *)
(* with a weight or a link to another cell; unions by weight, chains         *)
(* shortened while they are followed.                                       *)
(*                                                                          *)
(* TLC shows, for every history of pairs, that the concrete one implements   *)
(* the abstract one and that chains stay logarithmic.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANT NN                \* amount of nodes

VARIABLES
    seen, cls,             \* abstract
    at, cell,              \* concrete: node -> cell (0: none), cells
    ans                    \* <<abstract, concrete>> answer of the last operation

vars == <<seen, cls, at, cell, ans>>
Node == 1..NN

(* Abstract *)
AKnown(a, b) == a \in seen /\ b \in seen /\ cls[a] = cls[b]
AJoin(c, a, b) ==
    LET lo == IF c[a] < c[b] THEN c[a] ELSE c[b]
        hi == IF c[a] < c[b] THEN c[b] ELSE c[a]
    IN [x \in DOMAIN c |-> IF c[x] = hi THEN lo ELSE c[x]]

(* Concrete *)
IsRep(cs, i) == cs[i][1] = "rep"
RECURSIVE Root(_, _)
Root(cs, i) == IF IsRep(cs, i) THEN i ELSE Root(cs, cs[i][2])
RECURSIVE Chain(_, _)
Chain(cs, i) == IF IsRep(cs, i) THEN 0 ELSE 1 + Chain(cs, cs[i][2])
\* Following the chain from cell i: each cell on the way that is not next to
\* the representative comes to link to the one after its next.
RECURSIVE Shorten(_, _, _)
Shorten(cs, cur, next) ==
    IF IsRep(cs, next) THEN cs
    ELSE LET nn == cs[next][2] IN Shorten([cs EXCEPT ![cur] = <<"link", nn>>], next, nn)
Lookup(cs, i) == IF IsRep(cs, i) THEN cs ELSE Shorten(cs, i, cs[i][2])

NoneSeen(a, b) ==
    /\ at[a] = 0 /\ at[b] = 0
    /\ cell' = Append(cell, <<"rep", 1>>)
    /\ at' = [at EXCEPT ![a] = Len(cell) + 1, ![b] = Len(cell) + 1]
    /\ ans' = <<AKnown(a, b), FALSE>>

SomeSeen(a, b) ==
    /\ (at[a] = 0) # (at[b] = 0)
    /\ LET s == IF at[a] = 0 THEN b ELSE a
           u == IF at[a] = 0 THEN a ELSE b
           cs == Lookup(cell, at[s])
       IN cell' = cs /\ at' = [at EXCEPT ![u] = Root(cs, at[s])]
    /\ ans' = <<AKnown(a, b), FALSE>>

AllSeen(a, b) ==
    /\ at[a] # 0 /\ at[b] # 0
    /\ LET c1 == Lookup(cell, at[a])
           c2 == Lookup(c1, at[b])
           ra == Root(c2, at[a])
           rb == Root(c2, at[b])
           wa == c2[ra][2]
           wb == c2[rb][2]
           big == IF wa >= wb THEN ra ELSE rb
           small == IF wa >= wb THEN rb ELSE ra
       IN /\ cell' = IF ra = rb THEN c2
                     ELSE [c2 EXCEPT ![big] = <<"rep", wa + wb>>, ![small] = <<"link", big>>]
          /\ ans' = <<AKnown(a, b), ra = rb>>
    /\ at' = at

Record(a, b) ==
    /\ NoneSeen(a, b) \/ SomeSeen(a, b) \/ AllSeen(a, b)
    /\ seen' = seen \cup {a, b}
    /\ cls' = AJoin(cls, a, b)

Init == /\ seen = {} /\ cls = [x \in Node |-> x]
        /\ at = [x \in Node |-> 0] /\ cell = << >>
        /\ ans = <<TRUE, TRUE>>
Next == \E a, b \in Node : a # b /\ Record(a, b)
Spec == Init /\ [][Next]_vars

SameAnswer == ans[1] = ans[2]
SeenAlike == \A x \in Node : (x \in seen) <=> (at[x] # 0)
SameClasses == \A x, y \in seen : (cls[x] = cls[y]) <=> (Root(cell, at[x]) = Root(cell, at[y]))
Members(x) == Cardinality({y \in seen : cls[y] = cls[x]})
Logarithmic == \A x \in seen : 2 ^ Chain(cell, at[x]) <= Members(x)
\* (In fact the weight already bounds it, and the weight never exceeds the
\* members.)
WeightBounds == \A x \in seen : LET w == cell[Root(cell, at[x])][2] IN
                                  2 ^ Chain(cell, at[x]) <= w /\ w <= Members(x)
\* Known pairs only shorten.
NeverLengthened ==
    [][ans'[2] => \A i \in DOMAIN cell : Chain(cell', i) <= Chain(cell, i)]_vars
NeverSeparated == [][\A x, y \in Node : cls[x] = cls[y] => cls'[x] = cls'[y]]_vars
=============================================================================
