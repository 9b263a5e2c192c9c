------------------------------- MODULE Compare -------------------------------
(***************************************************************************)
(* The comparison machine: what the library does for one invocation of any   *)
(* of its premade variants, or of the generic API with the premade modes.    *)
(*                                                                          *)
(* A job fixes the inputs and the variation:                                 *)
(*   g, a, b   graph and the two roots                                       *)
(*   recur     "call" (call-stack), "stack" (RecurStack), "queue"            *)
(*   descend   "unlimited", "limited", "interleave"                          *)
(*   lim       the limit, when limited                                       *)
(*   pre       TRUE: a limited precheck first, then the interleave           *)
(*   prerecur  recursion mode of the precheck                                *)
(*   P, F, S   PRECHECK_LIMIT, FAST_LIMIT_MAX, SLOW_LIMIT                     *)
(*   ids       << >>: every node of g is one of its own; otherwise the        *)
(*             identity of each: then some are the same node seen at          *)
(*             different positions, giving its edges in different orders      *)
(*                                                                          *)
(* One action per branch of the code: a pair is visited (traverse permission,*)
(* identity, own values, presence of edges), its edges are admitted or not,  *)
(* the next pair is fetched.  The only nondeterminism is the number drawn    *)
(* when the fast phase starts.                                               *)
(***************************************************************************)
EXTENDS GraphOps, TLC

VARIABLES
    job,    \* the inputs; constant during a behaviour
    stage,  \* "pre" (precheck) or "main"
    pc,     \* "visit" | "edges" | "next" | "done"
    cur,    \* <<a, b>> the pair in hand
    pend,   \* iterators of edges still to be walked: <<a, b, next index>>
    tick,   \* remaining limit (limited) / the phase ticker (interleave)
    cls,    \* class of each node, as the least member (slow phase memory)
    res,    \* the answer
    cnt     \* counters: observation only, never read by the actions

vars == <<job, stage, pc, cur, pend, tick, cls, res, cnt>>

NoRes == <<"none">>
LimitRes == <<"limit">>

g == job.g
Id(x) == IF job.ids = << >> THEN x ELSE job.ids[x]

Recur   == IF stage = "pre" THEN job.prerecur ELSE job.recur
Descend == IF stage = "pre" THEN "limited" ELSE job.descend

Zero == [visits |-> 0, previsits |-> 0, descents |-> 0, merges |-> 0, hits |-> 0,
         fast |-> 0, draws |-> 0, maxpend |-> 0, slowrun |-> 0]

StartTick(j) == IF j.pre THEN j.P ELSE IF j.descend = "limited" THEN j.lim ELSE 0

Start(j) ==
    /\ job = j
    /\ stage = IF j.pre THEN "pre" ELSE "main"
    /\ pc = "visit"
    /\ cur = <<j.a, j.b>>
    /\ pend = << >>
    /\ tick = StartTick(j)
    /\ cls = [x \in 1..N(j.g) |-> x]
    /\ res = NoRes
    /\ cnt = Zero

StartNext(j) ==          \* the same as an action
    /\ job' = j
    /\ stage' = IF j.pre THEN "pre" ELSE "main"
    /\ pc' = "visit"
    /\ cur' = <<j.a, j.b>>
    /\ pend' = << >>
    /\ tick' = StartTick(j)
    /\ cls' = [x \in 1..N(j.g) |-> x]
    /\ res' = NoRes
    /\ cnt' = Zero

Bump(f) == [cnt EXCEPT ![f] = @ + 1]
CountVisit == [cnt EXCEPT !.visits = @ + 1,
                          !.previsits = IF stage = "pre" THEN @ + 1 ELSE @]

Finish(r) == pc' = "done" /\ res' = r

(***************************************************************************)
(* Visiting a pair.                                                         *)
(***************************************************************************)
Permitted == Descend # "limited" \/ tick > 0
Ticked    == IF Descend = "limited" THEN tick - 1 ELSE tick

\* The limit is used up: the whole comparison is abandoned ...
VisitLimit ==
    /\ pc = "visit" /\ ~Permitted /\ stage = "main"
    /\ Finish(LimitRes)
    /\ UNCHANGED <<job, stage, cur, pend, tick, cls, cnt>>

\* ... or, when it was the precheck, everything starts afresh.
Abort ==
    /\ pc = "visit" /\ ~Permitted /\ stage = "pre"
    /\ stage' = "main"
    /\ pc' = "visit"
    /\ cur' = <<job.a, job.b>>
    /\ pend' = << >>
    /\ tick' = 0
    /\ UNCHANGED <<job, cls, res, cnt>>

Visiting == pc = "visit" /\ Permitted /\ tick' = Ticked /\ cnt' = CountVisit

\* One and the same node: nothing more is looked at.
VisitSame ==
    /\ Visiting /\ cur[1] = cur[2]
    /\ pc' = "next"
    /\ UNCHANGED <<job, stage, cur, pend, cls, res>>

VisitDiffer ==
    /\ Visiting /\ cur[1] # cur[2] /\ Local(g, cur[1], cur[2]) # Eq
    /\ Finish(Local(g, cur[1], cur[2]))
    /\ UNCHANGED <<job, stage, cur, pend, cls>>

VisitLeaf ==
    /\ Visiting /\ cur[1] # cur[2] /\ Local(g, cur[1], cur[2]) = Eq
    /\ Deg(g, cur[1]) = 0
    /\ pc' = "next"
    /\ UNCHANGED <<job, stage, cur, pend, cls, res>>

VisitBranch ==
    /\ Visiting /\ Branch(g, cur[1], cur[2])
    /\ pc' = "edges"
    /\ UNCHANGED <<job, stage, cur, pend, cls, res>>

(***************************************************************************)
(* Admitting the edges of a branch pair.                                    *)
(***************************************************************************)
Push ==
    LET it == <<cur[1], cur[2], 1>> IN
    pend' = IF Recur = "queue" THEN Append(pend, it) ELSE <<it>> \o pend

CountDescent(c) ==
    [c EXCEPT !.descents = @ + 1,
              !.maxpend = IF Len(pend) + 1 > @ THEN Len(pend) + 1 ELSE @]

EdgesPlain ==
    /\ pc = "edges" /\ Descend # "interleave"
    /\ Push /\ pc' = "next"
    /\ cnt' = CountDescent(cnt)
    /\ UNCHANGED <<job, stage, cur, tick, cls, res>>

Interleaving == pc = "edges" /\ Descend = "interleave"
SameClass == cls[Id(cur[1])] = cls[Id(cur[2])]
Merged ==
    LET x == cls[Id(cur[1])]
        y == cls[Id(cur[2])]
        lo == IF x < y THEN x ELSE y
        hi == IF x < y THEN y ELSE x
    IN [z \in DOMAIN cls |-> IF cls[z] = hi THEN lo ELSE cls[z]]

EdgesFast ==
    /\ Interleaving /\ tick - 1 >= 0
    /\ tick' = tick - 1
    /\ Push /\ pc' = "next"
    /\ cnt' = [CountDescent(cnt) EXCEPT !.fast = @ + 1]
    /\ UNCHANGED <<job, stage, cur, cls, res>>

EdgesSwitch(r) ==
    /\ Interleaving /\ tick - 1 < 0 /\ tick - 1 < -job.S
    /\ r \in 0..job.F
    /\ tick' = r
    /\ Push /\ pc' = "next"
    /\ cnt' = [CountDescent(cnt) EXCEPT !.fast = @ + 1, !.draws = @ + 1, !.slowrun = 0]
    /\ UNCHANGED <<job, stage, cur, cls, res>>

Slow == Interleaving /\ tick - 1 < 0 /\ tick - 1 >= -job.S

EdgesSlowHit ==
    /\ Slow /\ SameClass
    /\ tick' = 0
    /\ pc' = "next"
    /\ cnt' = [cnt EXCEPT !.hits = @ + 1, !.slowrun = 0]
    /\ UNCHANGED <<job, stage, cur, pend, cls, res>>

EdgesSlowNew ==
    /\ Slow /\ ~SameClass
    /\ tick' = tick - 1
    /\ cls' = Merged
    /\ Push /\ pc' = "next"
    /\ cnt' = [CountDescent(cnt) EXCEPT !.merges = @ + 1, !.slowrun = @ + 1]
    /\ UNCHANGED <<job, stage, cur, res>>

(***************************************************************************)
(* Fetching the next pair.                                                  *)
(***************************************************************************)
NextItem == LET h == Head(pend) IN Item(g, h[1], h[2], h[3])

\* Lazy stacks and queues drop an exhausted iterator together with its last
\* item; the call-stack's loop still has to come back to it.
Advanced ==
    LET h == Head(pend)
        more == Item(g, h[1], h[2], h[3] + 1)[1] # "end"
    IN IF Recur = "call" \/ more
       THEN <<<<h[1], h[2], h[3] + 1>>>> \o Tail(pend)
       ELSE Tail(pend)

NextPair ==
    /\ pc = "next" /\ pend # << >> /\ NextItem[1] = "pair"
    /\ cur' = <<NextItem[2], NextItem[3]>>
    /\ pend' = Advanced
    /\ pc' = "visit"
    /\ UNCHANGED <<job, stage, tick, cls, res, cnt>>

NextMismatch ==
    /\ pc = "next" /\ pend # << >> /\ NextItem[1] = "amt"
    /\ Finish(NextItem)
    /\ UNCHANGED <<job, stage, cur, pend, tick, cls, cnt>>

NextReturn ==            \* call-stack only: a frame's loop ends
    /\ pc = "next" /\ pend # << >> /\ NextItem[1] = "end"
    /\ pend' = Tail(pend)
    /\ UNCHANGED <<job, stage, pc, cur, tick, cls, res, cnt>>

NextEnd ==
    /\ pc = "next" /\ pend = << >>
    /\ Finish(Eq)
    /\ UNCHANGED <<job, stage, cur, pend, tick, cls, cnt>>

Done == pc = "done" /\ UNCHANGED vars

Visit == VisitLimit \/ Abort \/ VisitSame \/ VisitDiffer \/ VisitLeaf \/ VisitBranch
Edges == EdgesPlain \/ EdgesFast \/ EdgesSlowHit \/ EdgesSlowNew
         \/ \E r \in 0..job.F : EdgesSwitch(r)
Fetch == NextPair \/ NextMismatch \/ NextReturn \/ NextEnd
Step == Visit \/ Edges \/ Fetch

(***************************************************************************)
(* Properties.                                                              *)
(***************************************************************************)
Roots == {job.a, job.b}
Branches == {Id(x) : x \in BranchNodes(g, Roots)}
IsDone == pc = "done"
Answered == IsDone /\ res # LimitRes
BreadthFirst == job.recur = "queue" /\ (job.pre => job.prerecur = "queue")
DepthFirst == job.recur # "queue" /\ (job.pre => job.prerecur # "queue")

TypeOK ==
    /\ stage \in {"pre", "main"}
    /\ pc \in {"visit", "edges", "next", "done"}
    /\ \A k \in 1..Len(pend) : pend[k][3] >= 1
    /\ IsDone <=> res # NoRes

\* C01, C02: an answer says "equivalent" exactly for indistinguishable roots.
VerdictExact == Answered => ((res = Eq) <=> Bisim(g, job.a, job.b))

\* C03: work is linear in the distinct nodes.
WorkBound ==
    job.descend = "interleave" =>
      LET B == Cardinality(Branches)
          d == MaxDeg(g, Roots)
      IN /\ WithinVisits(cnt.visits - cnt.previsits, B, d, job.S, job.F)
         /\ cnt.merges <= (IF B > 0 THEN B - 1 ELSE 0)
         /\ cnt.previsits <= (IF job.pre THEN job.P ELSE 0)

\* C04: the answer is the first difference in traversal order.
FirstDifferenceDfs ==
    (Answered /\ DepthFirst /\ Acyclic(g, Roots)) => res = Dfs(g, job.a, job.b)
FirstDifferenceBfs ==
    (Answered /\ BreadthFirst) => res = Bfs(g, job.a, job.b)
\* On cyclic graphs walked depth-first the answer still is a real difference
\* between two nodes at the same path.
RealDifference ==
    (IsDone /\ res[1] = "loc") => Local(g, res[2], res[3]) = res

\* C05: the limit bites exactly when the unlimited walk needs more.
LimitExact ==
    (IsDone /\ ~job.pre /\ job.descend = "limited") =>
      LET w == IF job.recur = "queue" THEN BfsN(g, job.a, job.b)
                                      ELSE DfsN(g, job.a, job.b)
      IN IF w[2] > job.lim THEN res = LimitRes
         ELSE res = w[1] /\ tick = job.lim - w[2]
LimitNeverExceeded ==
    (job.descend = "limited" /\ ~job.pre) => cnt.visits <= job.lim

\* C06: what the precheck did leaves no trace in the answer.
PrecheckClean ==
    (job.pre /\ stage = "main" /\ pc = "visit" /\ cnt.visits = cnt.previsits)
       => (pend = << >> /\ tick = 0 /\ cls = [x \in DOMAIN cls |-> x]
           /\ cur = <<job.a, job.b>>)
PrecheckNeverLimits == job.pre => res # LimitRes

\* C13: what is pending stays small.  Depth-first with a lazy stack, an
\* iterator is dropped with its last item, so a chain of last edges never
\* accumulates; the call-stack has exactly the open ancestors.
PendDistinctFrames ==
    Recur = "stack" => \A k \in 1..Len(pend) :
        pc = "visit" => Item(g, pend[k][1], pend[k][2], pend[k][3])[1] # "end"

\* C14: the phase ticker.
TickRange ==
    (stage = "main" /\ job.descend = "interleave") => tick \in (-job.S)..job.F
SlowRunBounded == cnt.slowrun <= job.S

\* C08: nothing identical is ever descended or recorded.
NoIdenticalDescended == \A k \in 1..Len(pend) : pend[k][1] # pend[k][2]

\* C23: what is remembered is bounded by the graph: only nodes with edges are
\* ever recorded, however often they are met, and only by the slow phase.
Recorded == {x \in DOMAIN cls : \E y \in DOMAIN cls : y # x /\ cls[y] = cls[x]}
MemoryBound ==
    /\ Recorded \subseteq Branches
    /\ (stage = "pre" \/ job.descend # "interleave") => Recorded = {}
    /\ Cardinality(Recorded) <= 2 * cnt.merges
    /\ Len(pend) <= cnt.descents

\* Soundness of the slow-phase memory: whatever two nodes share a class are
\* connected by pairs that were compared equal and admitted (so: same label,
\* same presence of edges).
ClassesHomogeneous ==
    \A x \in DOMAIN cls : cls[x] # x =>
        (g.lab[x] = g.lab[cls[x]] /\ Deg(g, x) > 0 /\ Deg(g, cls[x]) > 0)
=============================================================================
