------------------------------ MODULE ClassSteps -----------------------------
(***************************************************************************)
(* EquivClasses write by write: a chain is followed and shortened one cell   *)
(* at a time.  TLC shows that each write is one of Forest's, for which        *)
(* ForestProof proves soundness and logarithmic chains for any amount of     *)
(* nodes, and that the writes of one operation together do what EquivClasses *)
(* says in one step.                                                        *)
(***************************************************************************)
EXTENDS EquivClasses

VARIABLES pc, a, b, cur, ra, rb, before, rk
\* pc: "idle" | "first" | "second" | "act"; before: the cells when it began

svars == <<seen, cls, at, cell, ans, pc, a, b, cur, ra, rb, before, rk>>

CInit == /\ Init /\ pc = "idle" /\ a = 0 /\ b = 0 /\ cur = 0 /\ ra = 0 /\ rb = 0 /\ before = << >>
         /\ rk = [c \in Node |-> 0]

Begin(x, y) ==
    /\ pc = "idle"
    /\ a' = x /\ b' = y /\ before' = cell
    /\ IF at[x] # 0 THEN pc' = "first" /\ cur' = at[x]
       ELSE IF at[y] # 0 THEN pc' = "second" /\ cur' = at[y]
       ELSE pc' = "act" /\ cur' = 0
    /\ UNCHANGED <<seen, cls, at, cell, ans, ra, rb, rk>>

\* From the first chain to the second, or on to what is to be done.
Found(r) ==
    /\ IF pc = "first"
       THEN /\ ra' = r /\ rb' = rb
            /\ IF at[b] # 0 THEN pc' = "second" /\ cur' = at[b] ELSE pc' = "act" /\ cur' = 0
       ELSE rb' = r /\ ra' = ra /\ pc' = "act" /\ cur' = 0
    /\ UNCHANGED <<seen, cls, at, cell, ans, a, b, before, rk>>

Follow ==
    /\ pc \in {"first", "second"}
    /\ IF IsRep(cell, cur) THEN Found(cur)
       ELSE LET n == cell[cur][2] IN
            IF IsRep(cell, n) THEN Found(n)
            ELSE /\ cell' = [cell EXCEPT ![cur] = <<"link", cell[n][2]>>]
                 /\ cur' = n
                 /\ UNCHANGED <<seen, cls, at, ans, pc, a, b, ra, rb, before, rk>>

Abstractly == seen' = seen \cup {a, b} /\ cls' = AJoin(cls, a, b)
Finish == pc' = "idle" /\ a' = 0 /\ b' = 0 /\ cur' = 0 /\ ra' = 0 /\ rb' = 0 /\ before' = << >>

Act ==
    /\ pc = "act" /\ Abstractly /\ Finish
    /\ CASE at[a] = 0 /\ at[b] = 0 ->
              /\ cell' = Append(cell, <<"rep", 1>>)
              /\ at' = [at EXCEPT ![a] = Len(cell) + 1, ![b] = Len(cell) + 1]
              /\ ans' = <<AKnown(a, b), FALSE>> /\ rk' = rk
         [] at[a] # 0 /\ at[b] = 0 -> at' = [at EXCEPT ![b] = ra] /\ cell' = cell /\ ans' = <<AKnown(a, b), FALSE>> /\ rk' = rk
         [] at[a] = 0 /\ at[b] # 0 -> at' = [at EXCEPT ![a] = rb] /\ cell' = cell /\ ans' = <<AKnown(a, b), FALSE>> /\ rk' = rk
         [] OTHER ->
              /\ at' = at
              /\ ans' = <<AKnown(a, b), ra = rb>>
              /\ IF ra = rb THEN cell' = cell /\ rk' = rk
                 ELSE LET big == IF cell[ra][2] >= cell[rb][2] THEN ra ELSE rb
                          small == IF big = ra THEN rb ELSE ra
                      IN /\ cell' = [cell EXCEPT ![big] = <<"rep", cell[ra][2] + cell[rb][2]>>, ![small] = <<"link", big>>]
                         /\ rk' = [rk EXCEPT ![big] = IF @ >= rk[small] + 1 THEN @ ELSE rk[small] + 1]

CNext == (\E x, y \in Node : x # y /\ Begin(x, y)) \/ Follow \/ Act
CSpec == CInit /\ [][CNext]_svars

\* Each write is Forest's.
Used(c) == c <= Len(cell)
Next_ == [c \in Node |-> IF Used(c) /\ ~IsRep(cell, c) THEN cell[c][2] ELSE c]
W == [c \in Node |-> IF ~Used(c) THEN 1 ELSE IF IsRep(cell, c) THEN cell[c][2] ELSE 0]
Rep == [c \in Node |-> IF Used(c) THEN Root(cell, c) ELSE c]
F == INSTANCE Forest WITH Key <- Node, Cell <- Node, Nil <- 0, next <- Next_, w <- W, rep <- Rep
Refines == F!FSpec

\* The writes of an operation are EquivClasses' one step.
Looked == LET c1 == IF at[a] = 0 THEN before ELSE Lookup(before, at[a])
          IN IF at[b] = 0 THEN c1 ELSE Lookup(c1, at[b])
OneStep == pc = "act" => /\ cell = Looked
                         /\ at[a] # 0 => ra = Root(cell, at[a])
                         /\ at[b] # 0 => rb = Root(cell, at[b])
==============================================================================
