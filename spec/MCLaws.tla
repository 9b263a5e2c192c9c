------------------------------- MODULE MCLaws -------------------------------
(***************************************************************************)
(* The laws hold of the specification itself: on every small graph, the      *)
(* breadth-first first difference, read as an ordering, is a total order     *)
(* whose equality is indistinguishability; on acyclic ones, the depth-first   *)
(* one too.                                                                  *)
(***************************************************************************)
EXTENDS GraphOps, TLC
CONSTANTS MaxN, TopDeg, NumLabels
VARIABLES g, ready
Seqs(n, d) == UNION {[1..m -> 1..n] : m \in 0..d}
Init == \E n \in 1..MaxN : \E lab \in [1..n -> 0..(NumLabels - 1)] : \E s \in Seqs(n, TopDeg) :
            g = [lab |-> lab, adj |-> <<s>>] /\ ready = (n = 1)
Next == /\ ~ready
        /\ \E rest \in [2..Len(g.lab) -> Seqs(Len(g.lab), TopDeg)] :
             g' = [g EXCEPT !.adj = [x \in 1..Len(g.lab) |-> IF x = 1 THEN g.adj[1] ELSE rest[x]]]
        /\ ready' = TRUE
Spec == Init /\ [][Next]_<<g, ready>>
V == 1..Len(g.lab)
Neg(o) == CASE o = "lt" -> "gt" [] o = "gt" -> "lt" [] OTHER -> o
Total(m) == /\ \A p \in V : m[p][p] = "eq"
            /\ \A p, q \in V : m[p][q] = Neg(m[q][p])
            /\ \A p, q, s \in V : (m[p][q] \in {"lt", "eq"} /\ m[q][s] \in {"lt", "eq"}) =>
                  m[p][s] = IF m[p][q] = "eq" /\ m[q][s] = "eq" THEN "eq" ELSE "lt"
BfsLawful == ready =>
    LET m == TLCEval([p \in V |-> TLCEval([q \in V |-> AsOrd(g, Bfs(g, p, q))])])
        c == TLCEval(Colour(g))
    IN Total(m) /\ \A p, q \in V : m[p][q] = "eq" <=> c[p] = c[q]
DfsLawful == (ready /\ Acyclic(g, V)) =>
    LET m == TLCEval([p \in V |-> TLCEval([q \in V |-> AsOrd(g, Dfs(g, p, q))])])
        c == TLCEval(Colour(g))
    IN Total(m) /\ \A p, q \in V : m[p][q] = "eq" <=> c[p] = c[q]
=============================================================================
