----------------------------- MODULE MCPositions -----------------------------
(***************************************************************************)
(* Nodes that give their edges in an order that depends on where they are    *)
(* met: the same identity at different positions is a different node of the  *)
(* graph that is walked, with the same edges in another order.  What the     *)
(* graph says is the same (SameVerdict), and Compare over every such graph   *)
(* of a small size has all its properties, and does only what Policy allows  *)
(* of the identities.                                                        *)
(***************************************************************************)
EXTENDS MCRefine

CONSTANT Shapes

\* rev: at which positions edges come in reverse; to: the position of the
\* node that the i-th edge of a node at a position leads to.
At(gr, p, x) == x + (p - 1) * N(gr)
Of(gr, s) ==
    LET n == N(gr)
        base(x) == ((x - 1) % n) + 1
        pos(x) == ((x - 1) \div n) + 1
    IN [lab |-> [x \in 1..(n * Len(s.rev)) |-> gr.lab[base(x)]],
        adj |-> [x \in 1..(n * Len(s.rev)) |->
                   LET d == Deg(gr, base(x)) IN
                   [i \in 1..d |-> At(gr, s.to[pos(x)][i], gr.adj[base(x)][IF s.rev[pos(x)] THEN d + 1 - i ELSE i])]]]

PBootRest ==
    /\ pc = "boot2"
    /\ \E rest \in [2..job.n -> SeqsUpTo(1..job.n, TopDeg)], k \in 1..Len(Jobs), s \in 1..Len(Shapes) :
         LET gr == [lab |-> job.lab,
                    adj |-> [x \in 1..job.n |-> IF x = 1 THEN job.g.adj[1] ELSE rest[x]]]
             tg == Of(gr, Shapes[s])
             j == [ids |-> [x \in 1..N(tg) |-> ((x - 1) % job.n) + 1]] @@ Jobs[k] @@ [g |-> tg, a |-> 1, b |-> job.b]
         IN IF /\ Reach(gr, {1, job.b}) = 1..job.n
               /\ OnlyAcyclic => Acyclic(gr, {1, job.b})
            THEN StartNext(j)
            ELSE pc' = "skip" /\ UNCHANGED <<job, stage, cur, pend, tick, cls, res, cnt>>

PNext == (pc = "skip" /\ UNCHANGED vars) \/ BootAdj1 \/ PBootRest \/ (Running /\ (Step \/ Done))
PSpec == Init /\ [][PNext]_vars

Base == [lab |-> [x \in Ident_(job) |-> g.lab[x]], adj |-> Kids_(job)]
SameVerdict == (Running /\ pc = "visit") => (Bisim(g, job.a, job.b) <=> Bisim(Base, job.a, job.b))

TwoPositions ==
    << [rev |-> <<FALSE, TRUE>>, to |-> << <<2, 2>>, <<1, 1>> >>],
       [rev |-> <<FALSE, TRUE>>, to |-> << <<1, 2>>, <<2, 1>> >>],
       [rev |-> <<FALSE, FALSE>>, to |-> << <<1, 2>>, <<1, 2>> >>],
       [rev |-> <<FALSE, TRUE>>, to |-> << <<2, 1>>, <<1, 2>> >>] >>
==============================================================================
