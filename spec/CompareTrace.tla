---------------------------- MODULE CompareTrace ----------------------------
(***************************************************************************)
(* Validates recordings of real comparisons, step by step, against the       *)
(* comparison machine.  A recording holds the inputs and variation (a job),  *)
(* and, in order, every own-value comparison made of the user's nodes (with  *)
(* how many nodes were alive and how much call-stack was in use), every      *)
(* random number drawn, and the first use of each table; and the answer.     *)
(*                                                                          *)
(* Every comparison of own values must be one that the machine makes next,   *)
(* every draw one that it makes next, with the range it asks for.  What is   *)
(* not recorded (identical pairs, edges fetched, classes joined) the machine *)
(* does by itself; it has no choice once the draws are known.  A recording   *)
(* that is not a behaviour of the machine shows as a deadlock, at the event  *)
(* `l` of recording `t` where it went astray.                                *)
(***************************************************************************)
EXTENDS Compare, Json, IOUtils

CONSTANTS Chunks, CheckLive, CheckStk, StkMax

Data == ndJsonDeserialize(IOEnv.DATA)
Total == Len(Data)

VARIABLES k, t, l

tvars == <<vars, k, t, l>>

Lo(c) == ((c - 1) * Total) \div Chunks + 1
Hi(c) == (c * Total) \div Chunks

TInit ==
    /\ k \in {c \in 1..Chunks : Lo(c) <= Hi(c)}
    /\ t = Lo(k)
    /\ l = 1
    /\ Start(Data[t].job)

Ev == Data[t].ev
More == l <= Len(Ev)
IsC == More /\ Ev[l][1] = "c"
IsD == More /\ Ev[l][1] = "d"
IsT == More /\ Ev[l][1] = "t"
Stay == UNCHANGED <<k, t>>
Silent == ~(IsT /\ stage = "main") /\ Stay /\ l' = l
Consume == Stay /\ l' = l + 1

\* Nodes alive when own values are compared: two per pending iterator, the
\* pair in hand, the roots kept for after the precheck, and a little slack.
\* On the call-stack, what was peeked at stays alive while being descended.
LiveBound == (IF Recur = "call" THEN 4 ELSE 2) * Len(pend) + 2
             + (IF job.pre THEN 2 ELSE 0) + 4

TTable ==       \* the table is only there for the interleave, once
    /\ IsT /\ stage = "main" /\ job.descend = "interleave"
    /\ ~\E m \in 1..(l - 1) : Ev[m][1] = "t"
    /\ Consume /\ UNCHANGED vars

TVisit ==
    /\ IsC /\ pc = "visit"
    /\ Ev[l][2] = cur[1] /\ Ev[l][3] = cur[2]
    /\ CheckLive => Ev[l][4] <= LiveBound
    /\ (CheckStk /\ Recur # "call") => Ev[l][5] <= StkMax
    /\ (VisitDiffer \/ VisitLeaf \/ VisitBranch)
    /\ Consume

TDraw ==
    /\ IsD /\ Ev[l][3] = job.F + 1
    /\ EdgesSwitch(Ev[l][2])
    /\ Consume

\* The premade functions draw from the default generator by themselves; the
\* numbers it gives are known.
TOwnDraw ==
    /\ Data[t].own /\ cnt.draws + 1 <= Len(Data[t].rnd)
    /\ EdgesSwitch(Data[t].rnd[cnt.draws + 1])
    /\ Silent

TSilent ==
    /\ (VisitSame \/ VisitLimit \/ Abort \/ EdgesPlain \/ EdgesFast
        \/ EdgesSlowHit \/ EdgesSlowNew
        \/ NextPair \/ NextMismatch \/ NextReturn \/ NextEnd)
    /\ Silent

Shown ==
    LET kind == Data[t].kind IN
    CASE kind = "rich" -> res
      [] res = LimitRes -> res
      [] kind = "ord" /\ res # LimitRes -> <<AsOrd(g, res)>>
      [] kind = "bool" /\ res # LimitRes -> IF res = Eq THEN <<"eq">> ELSE <<"ne">>

TFinish ==      \* everything consumed, the same answer: on to the next
    /\ pc = "done" /\ ~More
    /\ Data[t].res = Shown
    /\ k' = k /\ l' = 1
    /\ IF t < Hi(k) THEN t' = t + 1 /\ StartNext(Data[t + 1].job)
                    ELSE t' = 0 /\ UNCHANGED vars

TNext == \/ t > 0 /\ (TTable \/ TVisit \/ TDraw \/ TOwnDraw \/ TSilent \/ TFinish)
         \/ t = 0 /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars

On == t > 0
TWork == (On /\ pc = "done") => WorkBound
TTick == On => TickRange /\ SlowRunBounded
TIdent == On => NoIdenticalDescended
TPre == On => PrecheckClean /\ PrecheckNeverLimits
TCls == On => ClassesHomogeneous
TReal == On => RealDifference
=============================================================================
