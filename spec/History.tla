------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* Histories of comparisons, of graphs that change in between.  The state    *)
(* that matters is the graph as it is now; the answer of every comparison    *)
(* must be the one due for that graph, whatever came before, whatever runs   *)
(* nested inside a node method of it, whatever other threads do, and         *)
(* whether or not earlier ones were cut off by a panic.                      *)
(*   Events:  <<"g", graph>>                  the graph is changed            *)
(*            <<"c", variant, group, kind, a, b, answer, cut>>                *)
(*   cut = 1 for a comparison during which a node method was made to panic,   *)
(*   which it must let through unless it was over before.                     *)
(***************************************************************************)
EXTENDS GraphOps, TLC, Json, IOUtils
CONSTANT Chunks
Data == ndJsonDeserialize(IOEnv.DATA)
Total == Len(Data)
VARIABLES k, t, l,
          g,      \* the graph as it is
          cols,   \* its colouring
          acy     \* nodes reaching no cycle
vars == <<k, t, l, g, cols, acy>>
Lo(c) == ((c - 1) * Total) \div Chunks + 1
Hi(c) == (c * Total) \div Chunks
Ev == Data[t].ev
E == Ev[l]

Look(gr) == /\ g' = gr
            /\ cols' = TLCEval(Colour(gr))
            /\ acy' = TLCEval({x \in Nodes(gr) : Acyclic(gr, {x})})
Nothing == [lab |-> <<0>>, adj |-> << << >> >>]
Init == /\ k \in {c \in 1..Chunks : Lo(c) <= Hi(c)} /\ t = Lo(k) /\ l = 1
        /\ g = Nothing /\ cols = <<1>> /\ acy = {1}

Show(kind, x) ==
    CASE kind = "rich" -> x
      [] kind = "ord"  -> <<AsOrd(g, x)>>
      [] kind = "bool" -> IF x = Eq THEN <<"eq">> ELSE <<"ne">>
Right(e) ==
    LET a == e[5]
        b == e[6]
        ans == e[7]
        same == cols[a] = cols[b]
        flat == a \in acy /\ b \in acy
    IN /\ ans[1] \in {"eq", "ne", "lt", "gt", "loc", "amt"}
       /\ ans[1] = "eq" <=> same
       /\ (~same /\ e[3] \in {"cycbf", "bf"}) => ans = Show(e[4], Bfs(g, a, b))
       /\ (~same /\ e[3] \in {"cycdf", "df"} /\ flat) => ans = Show(e[4], Dfs(g, a, b))
       /\ ans[1] = "loc" => Local(g, ans[2], ans[3]) = ans

Change == E[1] = "g" /\ Look(E[2])
Compare == /\ E[1] = "c"
           /\ (E[8] = 1 /\ E[7] = <<"injected">>) \/ Right(E)
           /\ UNCHANGED <<g, cols, acy>>
Next ==
    IF l <= Len(Ev) THEN (Change \/ Compare) /\ l' = l + 1 /\ UNCHANGED <<k, t>>
    ELSE IF t < Hi(k) THEN t' = t + 1 /\ l' = 1 /\ UNCHANGED <<k, g, cols, acy>>
    ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
