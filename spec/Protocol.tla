------------------------------ MODULE Protocol ------------------------------
(***************************************************************************)
(* The conversation between the algorithm and its two modes.                 *)
(*                                                                          *)
(* A descend mode is asked whether to traverse a pair and whether to do its  *)
(* edges; a recursion mode is given an iterator over the counterpart edges   *)
(* of an admitted pair, may pull from any iterator it holds, may compare     *)
(* pairs at once (equiv_main) or supply them later (next), and answers with  *)
(* a result or an error.  Here the answers of the modes are parameters of    *)
(* the actions: anything they may say.  mode = "scripted" is a user's mode    *)
(* of any behaviour; "call", "stack", "queue" are the library's own.          *)
(*                                                                          *)
(* kind = "custom": descend mode of the user.  kind = "pre": a precheck that *)
(* is limited to P visits, then interleaving that only remembers.            *)
(*                                                                          *)
(* Results are as in GraphOps, or <<"err", k>> (an error of a mode), or      *)
(* <<"limit">> (of the precheck).                                           *)
(***************************************************************************)
EXTENDS GraphOps, TLC

VARIABLES
    job,      \* [g, a, b, kind, mode, P]
    stage,    \* "pre" | "main"
    ctl,      \* who acts: "frame" | "mode" | "ret" | "next" | "reset" | "done"
    frames,   \* open invocations of equiv_main: [a, b, pc]
    iters,    \* iterators handed out: [a, b, i]
    saved,    \* numbers of the iterators held (library's stack or queue)
    cls,      \* classes of the interleaving
    visits,   \* pairs traversed in this stage
    ret,      \* what the last ended invocation of equiv_main returned
    res,      \* the answer
    calls,    \* mode and node methods called
    first     \* <<first error or difference given, calls when it was>>, or << >>

vars == <<job, stage, ctl, frames, iters, saved, cls, visits, ret, res, calls, first>>

g == job.g
None == <<"none">>
IsErr(x) == x[1] \in {"err", "limit"}
Scripted == job.mode = "scripted"

Top == frames[Len(frames)]
Below == SubSeq(frames, 1, Len(frames) - 1)
SetPc(p) == [frames EXCEPT ![Len(frames)].pc = p]
Frame(a, b) == [a |-> a, b |-> b, pc |-> "start"]

Begin(j) ==
    [job |-> j, stage |-> IF j.kind = "pre" THEN "pre" ELSE "main", frames |-> <<Frame(j.a, j.b)>>]
StartWith(j) ==
    /\ job = j /\ stage = Begin(j).stage /\ frames = Begin(j).frames
    /\ ctl = "frame" /\ iters = << >> /\ saved = << >>
    /\ cls = [x \in Nodes(j.g) |-> x] /\ visits = 0
    /\ ret = None /\ res = None /\ calls = 0 /\ first = << >>
StartNext(j) ==
    /\ job' = j /\ stage' = Begin(j).stage /\ frames' = Begin(j).frames
    /\ ctl' = "frame" /\ iters' = << >> /\ saved' = << >>
    /\ cls' = [x \in Nodes(j.g) |-> x] /\ visits' = 0
    /\ ret' = None /\ res' = None /\ calls' = 0 /\ first' = << >>

Return(x) ==
    /\ frames' = Below /\ ret' = x /\ ctl' = "ret"
Note(x) ==      \* something was said that ends it all
    /\ calls' = calls + 1
    /\ first' = IF x # Eq /\ first = << >> THEN <<x, calls + 1>> ELSE first
Call == calls' = calls + 1 /\ first' = first
Quiet == UNCHANGED <<calls, first>>

At(p) == ctl = "frame" /\ Top.pc = p

(* ---- whether to traverse ------------------------------------------------ *)
DoTraverse(ans) ==      \* the user's descend mode
    /\ At("start") /\ job.kind = "custom"
    /\ CASE ans = <<"yes">> -> frames' = SetPc("own") /\ Call /\ UNCHANGED <<ctl, ret>>
         [] ans = <<"no">>  -> Return(Eq) /\ Call
         [] OTHER           -> Return(ans) /\ Note(ans)
    /\ UNCHANGED <<job, stage, iters, saved, cls, visits, res>>
Traverse ==             \* the library's
    /\ At("start") /\ job.kind = "pre"
    /\ IF stage = "pre" /\ visits = job.P
       THEN Return(<<"limit">>) /\ UNCHANGED visits
       ELSE frames' = SetPc("own") /\ visits' = visits + 1 /\ UNCHANGED <<ctl, ret>>
    /\ Quiet
    /\ UNCHANGED <<job, stage, iters, saved, cls, res>>

(* ---- own values ---------------------------------------------------------- *)
Same ==
    /\ At("own") /\ Top.a = Top.b
    /\ Return(Eq) /\ Quiet
    /\ UNCHANGED <<job, stage, iters, saved, cls, visits, res>>
Own ==
    /\ At("own") /\ Top.a # Top.b
    /\ IF g.lab[Top.a] # g.lab[Top.b]
       THEN LET x == <<"loc", Top.a, Top.b>> IN Return(x) /\ Note(x)
       ELSE frames' = SetPc("peek") /\ Call /\ UNCHANGED <<ctl, ret>>
    /\ UNCHANGED <<job, stage, iters, saved, cls, visits, res>>
Peek ==
    /\ At("peek")
    /\ LET it == Item(g, Top.a, Top.b, 1) IN
       CASE it[1] = "pair" -> frames' = SetPc("edges") /\ UNCHANGED <<ctl, ret, calls, first>>
         [] it[1] = "end"  -> Return(Eq) /\ Quiet
         [] OTHER          -> Return(it) /\ calls' = calls
                              /\ first' = IF first = << >> THEN <<it, calls>> ELSE first
    /\ UNCHANGED <<job, stage, iters, saved, cls, visits, res>>

(* ---- whether to do the edges --------------------------------------------- *)
DoEdges(ans) ==
    /\ At("edges") /\ job.kind = "custom"
    /\ CASE ans = <<"yes">> -> frames' = SetPc("recur") /\ Call /\ UNCHANGED <<ctl, ret>>
         [] ans = <<"no">>  -> Return(Eq) /\ Call
         [] OTHER           -> Return(ans) /\ Note(ans)
    /\ UNCHANGED <<job, stage, iters, saved, cls, visits, res>>
Edges ==
    /\ At("edges") /\ job.kind = "pre" /\ Quiet
    /\ IF stage = "main" /\ cls[Top.a] = cls[Top.b]
       THEN Return(Eq) /\ UNCHANGED cls
       ELSE /\ frames' = SetPc("recur") /\ UNCHANGED <<ctl, ret>>
            /\ cls' = IF stage = "pre" THEN cls
                      ELSE [x \in DOMAIN cls |-> IF cls[x] = cls[Top.b] THEN cls[Top.a] ELSE cls[x]]
    /\ UNCHANGED <<job, stage, iters, saved, visits, res>>

(* ---- the recursion mode -------------------------------------------------- *)
Recur ==        \* it is given the iterator
    /\ At("recur")
    /\ iters' = Append(iters, [a |-> Top.a, b |-> Top.b, i |-> 1])
    /\ frames' = SetPc("iter")
    /\ ctl' = "mode"
    /\ saved' = CASE job.mode = "stack" -> <<Len(iters) + 1>> \o saved
                  [] job.mode = "queue" -> Append(saved, Len(iters) + 1)
                  [] OTHER -> saved
    /\ Call
    /\ UNCHANGED <<job, stage, cls, visits, ret, res>>

\* What an iterator yields next; what follows the comparison of the amounts
\* is its end.
Yield(n) == LET t == iters[n] IN
            IF t.i > 1 /\ Item(g, t.a, t.b, t.i - 1)[1] = "amt" THEN <<"end">> ELSE Item(g, t.a, t.b, t.i)
Stepped(n) == IF Yield(n)[1] = "end" THEN iters ELSE [iters EXCEPT ![n].i = @ + 1]
Exhausted(n) == Yield(n)[1] = "end"

ModePull(n) ==
    /\ Scripted /\ ctl \in {"mode", "next"} /\ n \in DOMAIN iters
    /\ iters' = Stepped(n)
    /\ UNCHANGED <<job, stage, ctl, frames, saved, cls, visits, ret, res, calls, first>>
ModeMain(x, y) ==
    /\ Scripted /\ ctl = "mode"
    /\ frames' = Append(frames, Frame(x, y)) /\ ctl' = "frame"
    /\ Call
    /\ UNCHANGED <<job, stage, iters, saved, cls, visits, ret, res>>
ModeGot ==
    /\ Scripted /\ ctl = "ret" /\ frames # << >>
    /\ ctl' = "mode"
    /\ UNCHANGED <<job, stage, frames, iters, saved, cls, visits, ret, res, calls, first>>
ModeReturn(x) ==
    /\ Scripted /\ ctl = "mode"
    /\ Return(x) /\ Note(x)
    /\ UNCHANGED <<job, stage, iters, saved, cls, visits, res>>

(* ---- the loop ------------------------------------------------------------- *)
Finish(x) == res' = x /\ ctl' = "done"
TopRet ==
    /\ ctl = "ret" /\ frames = << >>
    /\ CASE ret = <<"limit">> /\ stage = "pre" -> ctl' = "reset" /\ UNCHANGED res
         [] ret # Eq /\ ~(ret = <<"limit">> /\ stage = "pre") -> Finish(ret)
         [] ret = Eq -> ctl' = "next" /\ UNCHANGED res
    /\ UNCHANGED <<job, stage, frames, iters, saved, cls, visits, ret, calls, first>>
Restart ==
    /\ ctl = "reset"
    /\ stage' = "main" /\ frames' = <<Frame(job.a, job.b)>> /\ ctl' = "frame"
    /\ saved' = << >> /\ visits' = 0 /\ first' = << >>
    /\ UNCHANGED <<job, iters, cls, ret, res, calls>>
ModeNext(ans) ==
    /\ Scripted /\ ctl = "next"
    /\ CASE ans[1] = "pair" -> frames' = <<Frame(ans[2], ans[3])>> /\ ctl' = "frame" /\ UNCHANGED res /\ Call
         [] ans[1] = "none" -> Finish(Eq) /\ UNCHANGED frames /\ Call
         [] OTHER           -> Finish(ans) /\ UNCHANGED frames /\ Note(ans)
    /\ UNCHANGED <<job, stage, iters, saved, cls, visits, ret>>

\* the library's stack and queue: the first edge of the first iterator held
LazyNext ==
    /\ job.mode \in {"stack", "queue"} /\ ctl = "next"
    /\ IF saved = << >> THEN Finish(Eq) /\ UNCHANGED <<frames, iters, saved, first>>
       ELSE LET n == Head(saved)
                it == Yield(n)
            IN /\ iters' = Stepped(n)
               /\ CASE it[1] = "end"  -> saved' = Tail(saved) /\ UNCHANGED <<frames, ctl, res, first>>
                    [] it[1] = "pair" -> /\ frames' = <<Frame(it[2], it[3])>> /\ ctl' = "frame"
                                         /\ UNCHANGED <<saved, res, first>>
                    [] OTHER          -> /\ Finish(it) /\ UNCHANGED <<frames, saved>>
                                         /\ first' = IF first = << >> THEN <<it, calls>> ELSE first
    /\ UNCHANGED <<job, stage, cls, visits, ret, calls>>
LazyRecur ==    \* put by, and on
    /\ job.mode \in {"stack", "queue"} /\ ctl = "mode"
    /\ Return(Eq) /\ Quiet
    /\ UNCHANGED <<job, stage, iters, saved, cls, visits, res>>
CallNext ==
    /\ job.mode = "call" /\ ctl = "next"
    /\ Finish(Eq)
    /\ UNCHANGED <<job, stage, frames, iters, saved, cls, visits, ret, calls, first>>
\* On the call-stack the open frames' iterators are the ones not yet returned
\* from: frame d (from 1) holds the iterator saved[d].
CallEnter ==
    /\ job.mode = "call" /\ ctl = "mode" /\ Len(saved) < Len(frames)
    /\ saved' = Append(saved, Len(iters))
    /\ UNCHANGED <<job, stage, ctl, frames, iters, cls, visits, ret, res, calls, first>>
CallEdge ==
    /\ job.mode = "call" /\ ctl = "mode" /\ Len(saved) = Len(frames)
    /\ LET n == saved[Len(saved)]
           it == Yield(n)
       IN /\ iters' = Stepped(n)
          /\ CASE it[1] = "pair" -> frames' = Append(frames, Frame(it[2], it[3])) /\ ctl' = "frame" /\ UNCHANGED <<saved, ret, first>>
               [] it[1] = "end"  -> Return(Eq) /\ saved' = SubSeq(saved, 1, Len(saved) - 1) /\ UNCHANGED first
               [] OTHER          -> /\ Return(it) /\ saved' = SubSeq(saved, 1, Len(saved) - 1)
                                    /\ first' = IF first = << >> THEN <<it, calls>> ELSE first
    /\ UNCHANGED <<job, stage, cls, visits, res, calls>>
CallGot ==
    /\ job.mode = "call" /\ ctl = "ret" /\ frames # << >>
    /\ IF ret = Eq THEN ctl' = "mode" /\ UNCHANGED <<frames, saved, ret>>
       ELSE Return(ret) /\ saved' = SubSeq(saved, 1, Len(saved) - 1)
    /\ UNCHANGED <<job, stage, iters, cls, visits, res, calls, first>>

Silent == Traverse \/ Same \/ Peek \/ Edges \/ TopRet \/ LazyNext \/ LazyRecur \/ CallNext
          \/ CallEnter \/ CallEdge \/ CallGot

(***************************************************************************)
(* Properties.                                                              *)
(***************************************************************************)
Premade == job.mode # "scripted"
\* C17: with the library's recursion modes, the first error or difference
\* that anyone comes upon is the answer, and nothing is called after it.
StopsAtOnce ==
    (Premade /\ first # << >>) =>
       /\ calls = first[2]
       /\ ctl = "done" => (res = first[1] \/ job.kind = "pre")
\* An error of a mode at the outermost level ends the comparison with it.
OuterErrorIsTheAnswer ==
    (ctl = "done" /\ ret # Eq /\ ret # None /\ ~(ret = <<"limit">> /\ stage = "main" /\ job.kind = "pre")) => res = ret
\* C17: only the reached limit leads to interleaving, and it never is the answer.
OnlyLimitRestarts == (job.kind = "pre" /\ ctl = "reset") => (ret = <<"limit">> /\ visits = job.P)
LimitNotAnswered == (job.kind = "pre" /\ ctl = "done") => res # <<"limit">>
\* C16: equivalent only when everything admitted was visited.
AllVisited == (Premade /\ ctl = "done" /\ res = Eq /\ stage = "main") =>
                 \A n \in DOMAIN iters : (stage = "main" /\ job.kind = "custom") => Exhausted(n)
=============================================================================
