------------------------------ MODULE MCCompare ------------------------------
(* Exhaustive checking of Compare over every graph of a small size.          *)
EXTENDS Compare

CONSTANTS MaxN, TopDeg, Labels, Jobs, OnlyAcyclic, OnlyDifferent

SeqsUpTo(S, d) == UNION {[1..k -> S] : k \in 0..d}
AnyJob == [g |-> [lab |-> << >>, adj |-> << >>], a |-> 0, b |-> 0]

Boot0 == [recur |-> "call", descend |-> "unlimited", lim |-> 0, pre |-> FALSE,
          prerecur |-> "call", P |-> 0, F |-> 0, S |-> 1]

Init ==
    /\ \E n \in 1..MaxN, lab \in [1..MaxN -> Labels] :
         /\ \A x \in (n+1)..MaxN : lab[x] = 0
         /\ job = [n |-> n, lab |-> SubSeq(lab, 1, n), g |-> [lab |-> <<0>>, adj |-> << << >> >>], a |-> 1, b |-> 1,
                   recur |-> "call", descend |-> "boot", lim |-> 0, pre |-> FALSE,
                   prerecur |-> "call", P |-> 0, F |-> 0, S |-> 1]
    /\ stage = "main" /\ pc = "boot" /\ cur = <<1, 1>> /\ pend = << >> /\ tick = 0
    /\ cls = << >> /\ res = NoRes /\ cnt = Zero

\* The graph is picked in two steps, so that TLC's workers share the work.
BootAdj1 ==
    /\ pc = "boot"
    /\ \E s \in SeqsUpTo(1..job.n, TopDeg), b \in 1..job.n :
         job' = [job EXCEPT !.g = [lab |-> <<0>>, adj |-> <<s>>], !.b = b]
    /\ pc' = "boot2"
    /\ UNCHANGED <<stage, cur, pend, tick, cls, res, cnt>>

BootRest ==
    /\ pc = "boot2"
    /\ \E rest \in [2..job.n -> SeqsUpTo(1..job.n, TopDeg)], k \in 1..Len(Jobs) :
         LET gr == [lab |-> job.lab,
                    adj |-> [x \in 1..job.n |-> IF x = 1 THEN job.g.adj[1] ELSE rest[x]]]
             j == Jobs[k] @@ [g |-> gr, a |-> 1, b |-> job.b]
         IN IF /\ Reach(gr, {1, job.b}) = 1..job.n
               /\ OnlyAcyclic => Acyclic(gr, {1, job.b})
               /\ OnlyDifferent => ~Bisim(gr, 1, job.b)
            THEN StartNext(j)
            ELSE pc' = "skip" /\ UNCHANGED <<job, stage, cur, pend, tick, cls, res, cnt>>

Running == pc \notin {"boot", "boot2", "skip"}
Next == (pc = "skip" /\ UNCHANGED vars) \/ BootAdj1 \/ BootRest \/ (Running /\ (Step \/ Done))
Spec == Init /\ [][Next]_vars

\* C03: every behaviour ends (the machine only ever waits when it is done).
FairSpec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc \in {"done", "skip"})

RVerdict == Running => VerdictExact
RWork == Running => WorkBound
RFirst == Running => FirstDifferenceDfs /\ FirstDifferenceBfs /\ RealDifference
RLimit == Running => LimitExact /\ LimitNeverExceeded
RPre == Running => PrecheckClean /\ PrecheckNeverLimits
RPend == Running => PendDistinctFrames
RTick == Running => TickRange /\ SlowRunBounded
RIdent == Running => NoIdenticalDescended
RMem == Running => MemoryBound
RCls == Running => ClassesHomogeneous
RType == Running => TypeOK

(* Job lists *)
J(recur, descend, lim, pre, prerecur, P, F, S) ==
    [recur |-> recur, descend |-> descend, lim |-> lim, pre |-> pre,
     prerecur |-> prerecur, P |-> P, F |-> F, S |-> S, ids |-> << >>]
JobsInterleave ==
    << J("call", "interleave", 0, FALSE, "call", 0, 1, 1),
       J("queue", "interleave", 0, FALSE, "queue", 0, 1, 1),
       J("queue", "interleave", 0, FALSE, "queue", 0, 2, 2) >>
JobsStack ==
    << J("stack", "interleave", 0, FALSE, "stack", 0, 1, 1),
       J("stack", "interleave", 0, FALSE, "stack", 0, 0, 2) >>
JobsUnlimited ==
    << J("call", "unlimited", 0, FALSE, "call", 0, 0, 1),
       J("stack", "unlimited", 0, FALSE, "stack", 0, 0, 1),
       J("queue", "unlimited", 0, FALSE, "queue", 0, 0, 1) >>
JobsQueue == << J("queue", "unlimited", 0, FALSE, "queue", 0, 0, 1) >>
JobsLimited ==
    [k \in 1..15 |-> LET m == <<"call", "stack", "queue">>[((k - 1) % 3) + 1]
                     IN J(m, "limited", (k - 1) \div 3, FALSE, m, 0, 0, 1)]
JobsPre ==
    << J("call", "interleave", 0, TRUE, "call", 1, 1, 1),
       J("stack", "interleave", 0, TRUE, "call", 2, 1, 1),
       J("queue", "interleave", 0, TRUE, "call", 3, 1, 1),
       J("stack", "interleave", 0, TRUE, "stack", 2, 0, 1),
       J("queue", "interleave", 0, TRUE, "queue", 3, 1, 2),
       J("queue", "interleave", 0, TRUE, "queue", 0, 1, 1) >>
=============================================================================
