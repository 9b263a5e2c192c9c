----------------------------- MODULE MCProtocol -----------------------------
(***************************************************************************)
(* The conversation with every answer a mode can give, on all small graphs.  *)
(***************************************************************************)
EXTENDS Protocol

CONSTANTS MaxN, TopDeg, Kinds, Modes, Limits, MaxCalls, Errors

Seqs(n, d) == UNION {[1..m -> 1..n] : m \in 0..d}
Graphs == UNION {[lab : [1..n -> 0..1], adj : [1..n -> Seqs(n, TopDeg)]] : n \in 1..MaxN}
Js == {[g |-> gr, a |-> 1, b |-> y, kind |-> kd, mode |-> m, P |-> p] :
          gr \in Graphs, y \in 1..MaxN, kd \in Kinds, m \in Modes, p \in Limits}
Init == \E j \in Js : j.b <= N(j.g) /\ j.g.lab[1] = 0 /\ StartWith(j)

Err == {<<"err", e>> : e \in Errors}
Answers == {<<"yes">>, <<"no">>} \cup Err
Early == calls < MaxCalls
Next ==
    \/ Silent \/ Own \/ Recur \/ Restart
    \/ \E x \in Answers : DoTraverse(x) \/ DoEdges(x)
    \/ Early /\ \E n \in DOMAIN iters : ModePull(n) /\ ~Exhausted(n)
    \/ Early /\ \E x, y \in 1..N(g) : ModeMain(x, y)
    \/ ModeGot
    \/ \E x \in {Eq, AmtLt} \cup Err : ModeReturn(x)
    \/ ModeNext(<<"none">>) \/ ModeNext(AmtGt)
    \/ Early /\ \E x, y \in 1..N(g) : ModeNext(<<"pair", x, y>>)
    \/ ctl = "done" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)
Bounded == calls <= MaxCalls + 6
=============================================================================
