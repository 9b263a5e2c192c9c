--------------------------- MODULE ProtocolTrace ---------------------------
(***************************************************************************)
(* Validates recorded conversations against Protocol.  Events:               *)
(*   <<"T", ans>>        do_traverse answered (<<"yes">>, <<"no">>, error)    *)
(*   <<"C", a, b>>       own values compared                                *)
(*   <<"E", a, b, ans>>  do_edges asked about a, b and answered              *)
(*   <<"R", n>>          recur given the n-th iterator                       *)
(*   <<"I", n, item>>    pulled from the n-th iterator                       *)
(*   <<"M", x, y>>, <<"m", result>>  equiv_main called by the mode, returned  *)
(*   <<"r", result>>     recur answered                                     *)
(*   <<"N", answer>>     next answered                                      *)
(*   <<"S">>             reset called                                       *)
(***************************************************************************)
EXTENDS Protocol, Json, IOUtils

CONSTANT Chunks
Data == ndJsonDeserialize(IOEnv.DATA)
Total == Len(Data)
VARIABLES k, t, l
tvars == <<vars, k, t, l>>
Lo(c) == ((c - 1) * Total) \div Chunks + 1
Hi(c) == (c * Total) \div Chunks
TInit == /\ k \in {c \in 1..Chunks : Lo(c) <= Hi(c)}
         /\ t = Lo(k) /\ l = 1 /\ StartWith(Data[t].job)

Ev == Data[t].ev
More == l <= Len(Ev)
Is(x) == More /\ Ev[l][1] = x
E == Ev[l]
Consume == UNCHANGED <<k, t>> /\ l' = l + 1

Spoken ==
    \/ Is("T") /\ DoTraverse(E[2])
    \/ Is("C") /\ At("own") /\ E[2] = Top.a /\ E[3] = Top.b /\ Own
    \/ Is("E") /\ At("edges") /\ E[2] = Top.a /\ E[3] = Top.b /\ DoEdges(E[4])
    \/ Is("R") /\ Scripted /\ E[2] = Len(iters) + 1 /\ Recur
    \/ Is("I") /\ E[2] \in DOMAIN iters /\ Yield(E[2]) = E[3] /\ ModePull(E[2])
    \/ Is("M") /\ ModeMain(E[2], E[3])
    \/ Is("m") /\ ret = E[2] /\ ModeGot
    \/ Is("r") /\ ModeReturn(E[2])
    \/ Is("N") /\ ModeNext(E[2])
    \/ Is("S") /\ Restart
    \/ Is("S") /\ stage = "main" /\ visits = 0 /\ UNCHANGED vars   \* reset once more: as good
Unspoken ==
    \/ Silent
    \/ ~Scripted /\ (Recur \/ Restart)
TNext ==
    \/ t > 0 /\ Spoken /\ Consume
    \/ t > 0 /\ Unspoken /\ UNCHANGED <<k, t, l>>
    \/ /\ t > 0 /\ ctl = "done" /\ ~More /\ res = Data[t].res
       /\ k' = k /\ l' = 1
       /\ IF t < Hi(k) THEN t' = t + 1 /\ StartNext(Data[t + 1].job) ELSE t' = 0 /\ UNCHANGED vars
    \/ t = 0 /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
On == t > 0
TStops == On => StopsAtOnce
TError == On => OuterErrorIsTheAnswer
TLimit == On => OnlyLimitRestarts /\ LimitNotAnswered
TVisited == On => AllVisited
=============================================================================
