------------------------------ MODULE EdgeIter ------------------------------
(***************************************************************************)
(* How the edges of one pair of counterpart nodes are walked: the calls of   *)
(* get_edge, the items yielded, and the end of the index type.               *)
(*                                                                          *)
(* da, db   amounts of edges of the two nodes                               *)
(* Cap      how many values the index type has                              *)
(* mode     "call": a loop on the call-stack; "lazy": lazy stack or queue,   *)
(*          which looks ahead so as to drop the iterator with its last item  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxEdges, Caps

VARIABLES da, db, cap, mode, pc, ni, out, asked, high
vars == <<da, db, cap, mode, pc, ni, out, asked, high>>

None == -1
Idx == 0..(MaxEdges + 1)
Zero == [x \in Idx |-> 0]

Init ==
    /\ da \in 0..MaxEdges /\ db \in 0..MaxEdges
    /\ cap \in Caps /\ mode \in {"call", "lazy"}
    /\ pc = "peek" /\ ni = 0 /\ out = << >>
    /\ asked = Zero /\ high = None

Has(d, x) == x < d
Item(x) == CASE Has(da, x) /\ Has(db, x) -> <<"pair", x>>
             [] Has(da, x) /\ ~Has(db, x) -> <<"amt", "gt">>
             [] ~Has(da, x) /\ Has(db, x) -> <<"amt", "lt">>
             [] OTHER -> <<"end">>
Inc(x) == IF x + 1 < cap THEN x + 1 ELSE None
Ask == asked' = [asked EXCEPT ![ni] = @ + 1] /\ high' = (IF ni > high THEN ni ELSE high)
NoAsk == UNCHANGED <<asked, high>>
Same == UNCHANGED <<da, db, cap, mode>>

\* Before anything is descended the first item is looked at.
Peek ==
    /\ pc = "peek" /\ Ask /\ Same /\ UNCHANGED ni
    /\ CASE Item(ni)[1] = "pair" -> pc' = "next" /\ out' = out
         [] Item(ni)[1] = "amt"  -> pc' = "done" /\ out' = Append(out, Item(ni))
         [] OTHER                -> pc' = "done" /\ out' = out

NextItem ==
    /\ pc = "next" /\ ni # None /\ Ask /\ Same
    /\ CASE Item(ni)[1] = "pair" ->
              /\ out' = Append(out, Item(ni))
              /\ ni' = Inc(ni)
              /\ pc' = IF mode = "lazy" THEN "ahead" ELSE "next"
         [] Item(ni)[1] = "amt" -> pc' = "done" /\ out' = Append(out, Item(ni)) /\ ni' = ni
         [] OTHER               -> pc' = "done" /\ out' = out /\ ni' = None
NextNone ==
    /\ pc = "next" /\ ni = None /\ NoAsk /\ Same
    /\ pc' = "done" /\ UNCHANGED <<ni, out>>

\* The lazy ones look whether there is a next item.
Ahead ==
    /\ pc = "ahead" /\ Same /\ UNCHANGED <<ni, out>>
    /\ IF ni = None THEN NoAsk /\ pc' = "done"
       ELSE Ask /\ pc' = IF Item(ni)[1] = "end" THEN "done" ELSE "next"

\* Elsewhere a difference is found: nothing further is asked here.
Abandon == pc \in {"next", "ahead"} /\ pc' = "abandoned" /\ UNCHANGED <<da, db, cap, mode, ni, out, asked, high>>

Next == Peek \/ NextItem \/ NextNone \/ Ahead \/ Abandon
        \/ (pc \in {"done", "abandoned"} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Min(x, y) == IF x < y THEN x ELSE y
Common == Min(Min(da, db), cap)

\* C09
AtMostTwice == \A x \in Idx : asked[x] <= 2
NeverBeyondMissing == \A x \in Idx : asked[x] > 0 => x <= Min(da, db) /\ x < cap
NoGaps == \A x \in Idx : x <= high => asked[x] > 0
\* C20
InOrder == \A x \in DOMAIN out : out[x] = IF x <= Common THEN <<"pair", x - 1>>
                                         ELSE <<"amt", IF da < db THEN "lt" ELSE "gt">>
Complete == pc = "done" =>
              IF Common < cap /\ da # db THEN Len(out) = Common + 1 /\ out[Common + 1][1] = "amt"
              ELSE Len(out) = Common
Terminates == <>(pc \in {"done", "abandoned"})
=============================================================================
