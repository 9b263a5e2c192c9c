----------------------------- MODULE ClassTrace -----------------------------
(***************************************************************************)
(* Recordings of the real slow-phase memory, judged by the abstract one of   *)
(* EquivClasses.  A recording is a sequence of operations                   *)
(*   <<a, b, descend?, inserted keys, class of each node, chain of each>>    *)
(* (class 0: not in the table; otherwise the least member whose chain ends   *)
(* at the same cell).                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

CONSTANT Chunks
Data == ndJsonDeserialize(IOEnv.DATA)
Total == Len(Data)

VARIABLES k, t, l, seen, cls, chain
vars == <<k, t, l, seen, cls, chain>>

Lo(c) == ((c - 1) * Total) \div Chunks + 1
Hi(c) == (c * Total) \div Chunks
Fresh(r) == /\ seen' = {} /\ cls' = [x \in 1..Data[r].n |-> x]
            /\ chain' = [x \in 1..Data[r].n |-> 0]
Init == /\ k \in {c \in 1..Chunks : Lo(c) <= Hi(c)}
        /\ t = Lo(k) /\ l = 0
        /\ seen = {} /\ cls = [x \in 1..Data[t].n |-> x]
        /\ chain = [x \in 1..Data[t].n |-> 0]

Ops == Data[t].ops
A(m) == Ops[m][1]
B(m) == Ops[m][2]
Join(c, a, b) ==
    LET lo == IF c[a] < c[b] THEN c[a] ELSE c[b]
        hi == IF c[a] < c[b] THEN c[b] ELSE c[a]
    IN [x \in DOMAIN c |-> IF c[x] = hi THEN lo ELSE c[x]]

Next == IF l < Len(Ops)
        THEN /\ l' = l + 1 /\ k' = k /\ t' = t
             /\ seen' = seen \cup {A(l + 1), B(l + 1)}
             /\ cls' = Join(cls, A(l + 1), B(l + 1))
             /\ chain' = Ops[l + 1][6]
        ELSE /\ t < Hi(k) /\ t' = t + 1 /\ l' = 0 /\ k' = k /\ Fresh(t + 1)
Spec == Init /\ [][Next]_vars

\* The state before operation l, rebuilt from the recording's prefix, is
\* needed for the answer; the answer is checked one step ahead instead.
Ahead == l < Len(Ops)
a == A(l + 1)
b == B(l + 1)
Known == a \in seen /\ b \in seen /\ cls[a] = cls[b]

\* (2: it panicked, and the recording ends there)
Answers == Ahead => (Ops[l + 1][3] = (IF Known THEN 0 ELSE 1))
NoPanic == Ahead => Ops[l + 1][3] # 2
InsertedOnce ==
    Ahead => LET ins == Ops[l + 1][4] IN
               /\ ToSet(ins) = {a, b} \ seen
               /\ Len(ins) = Cardinality(ToSet(ins))
Partition ==
    l > 0 => LET c == Ops[l][5] IN
               /\ \A x \in DOMAIN cls : (c[x] # 0) <=> (x \in seen)
               /\ \A x, y \in seen : (c[x] = c[y]) <=> (cls[x] = cls[y])
Members(x) == Cardinality({y \in seen : cls[y] = cls[x]})
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Logarithmic == \A x \in seen : chain[x] <= Log2(Members(x))
NeverLengthened ==
    (Ahead /\ Known) => \A x \in seen : Ops[l + 1][6][x] <= chain[x]
=============================================================================
