----------------------------- MODULE CallTrace -----------------------------
(***************************************************************************)
(* Every call of a node method during real comparisons, judged by the Node   *)
(* contract.  Instances (values of the node type) are numbered as they come  *)
(* to be.  Events:                                                          *)
(*   <<"r", node, instance, of>>       a root (of = 0), or a clone of one    *)
(*   <<"e", node, instance, index, resulting instance or 0, its node>>       *)
(*   <<"c", a, b, instance, instance, equal?>>                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

CONSTANT Chunks
Data == ndJsonDeserialize(IOEnv.DATA)
Total == Len(Data)

VARIABLES k, t, l,
          inst,     \* instance -> what is known of it
          cmpd,     \* paths compared -> how often
          bad       \* rules broken
vars == <<k, t, l, inst, cmpd, bad>>

Lo(c) == ((c - 1) * Total) \div Chunks + 1
Hi(c) == (c * Total) \div Chunks
Empty == inst = << >> /\ cmpd = << >> /\ bad = {}
Init == /\ k \in {c \in 1..Chunks : Lo(c) <= Hi(c)}
        /\ t = Lo(k) /\ l = 1 /\ Empty

Ev == Data[t].ev
New(node, side, path) == [node |-> node, side |-> side, path |-> path, eq |-> FALSE, cmps |-> 0, ix |-> -1, n |-> 0, end |-> FALSE]
Known(x) == x \in DOMAIN inst

Rules(cond, name) == IF cond THEN {} ELSE {name}

\* inst is a sequence: instances are numbered from 1 without gaps.
Root(e) ==
    /\ inst' = Append(inst, IF e[4] = 0 THEN New(e[2], Len(inst) + 1, << >>)
                            ELSE [inst[e[4]] EXCEPT !.eq = FALSE, !.cmps = 0, !.ix = -1, !.n = 0, !.end = FALSE])
    /\ cmpd' = cmpd
    /\ bad' = Rules(e[3] = Len(inst) + 1 /\ e[2] = inst'[e[3]].node, "recorder")

Edge(e) ==
    LET x == e[3]
        o == inst[x]
        same == o.ix = e[4]
        o2 == [o EXCEPT !.ix = e[4], !.n = IF same THEN @ + 1 ELSE 1, !.end = (e[5] = 0)]
        i2 == [inst EXCEPT ![x] = o2]
    IN /\ inst' = IF e[5] = 0 THEN i2 ELSE Append(i2, New(e[6], o.side, Append(o.path, e[4])))
       /\ cmpd' = cmpd
       /\ bad' = Rules(o.node = e[2] /\ (e[5] # 0 => e[5] = Len(inst) + 1), "recorder")
                 \cup Rules(same \/ e[4] = o.ix + 1, "order")
                 \cup Rules(o2.n <= 2, "twice")
                 \cup Rules(~o.end \/ same, "beyond")
                 \cup Rules(o.eq, "unequal")

Cmp(e) ==
    LET x == inst[e[4]]
        y == inst[e[5]]
        times == (IF x.path \in DOMAIN cmpd THEN cmpd[x.path] ELSE 0) + 1
    IN /\ inst' = [inst EXCEPT ![e[4]].eq = e[6], ![e[4]].cmps = @ + 1, ![e[5]].eq = e[6], ![e[5]].cmps = @ + 1]
       /\ cmpd' = (x.path :> times) @@ cmpd
       /\ bad' = Rules(x.node = e[2] /\ y.node = e[3], "recorder")
                 \cup Rules(x.path = y.path, "counterparts")
                 \cup Rules(x.side = 1 /\ y.side = 2, "sides")
                 \cup Rules(times <= (IF Data[t].pre THEN 2 ELSE 1) /\ x.cmps = 0 /\ y.cmps = 0, "once")
                 \cup Rules(e[2] # e[3], "identical")

Next ==
    IF l <= Len(Ev)
    THEN /\ l' = l + 1 /\ UNCHANGED <<k, t>>
         /\ CASE Ev[l][1] = "r" -> Root(Ev[l])
              [] Ev[l][1] = "e" -> Edge(Ev[l])
              [] Ev[l][1] = "c" -> Cmp(Ev[l])
    ELSE /\ t < Hi(k) /\ t' = t + 1 /\ l' = 1 /\ k' = k
         /\ inst' = << >> /\ cmpd' = << >> /\ bad' = {}
Spec == Init /\ [][Next]_vars

RecorderOK == "recorder" \notin bad
IndexOrder == "order" \notin bad
AtMostTwice == "twice" \notin bad
NeverBeyondMissing == "beyond" \notin bad
EdgesOnlyOfEqual == "unequal" \notin bad
OnlyCounterparts == "counterparts" \notin bad
LeftIsSelf == "sides" \notin bad
OncePerVisit == "once" \notin bad
NeverIdentical == "identical" \notin bad
=============================================================================
