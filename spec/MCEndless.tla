------------------------------ MODULE MCEndless ------------------------------
(***************************************************************************)
(* The runs of Endless are what the plain walk goes through, for all small   *)
(* members, cut off beyond where the difference is.                          *)
(***************************************************************************)
EXTENDS Endless, GraphOps
CONSTANTS MaxD, MaxK
VARIABLES r, st
Init == /\ st = 0
        /\ \E fam \in {"tree", "comb", "wide"} : \E k \in 1..MaxK : \E d \in 0..MaxD : \E j \in 0..(k - 1) : \E how \in 0..3 : \E bf \in BOOLEAN :
             /\ (fam # "comb" => j = 0) /\ (fam # "tree" => how = 0) /\ (how = 1 => k > 1)
             /\ r = [fam |-> fam, k |-> k, d |-> d, j |-> j, how |-> how, bf |-> bf, pre |-> FALSE, limited |-> FALSE, P |-> 0]
Next == st = 0 /\ st' = 1 /\ r' = r
Spec == Init /\ [][Next]_<<r, st>>

Many == CASE r.fam = "tree" -> (r.d + 1) * r.k + r.k + 2
          [] r.fam = "comb" -> 16 * (r.d + 2)
          [] r.fam = "wide" -> 2 * (r.d + 4)
Edges(x, s) ==
    CASE r.fam = "tree" ->
           LET kk == IF s = 1 /\ x = r.d THEN (CASE r.how = 1 -> r.k - 1 [] r.how = 2 -> r.k + 1 [] r.how = 3 -> 0 [] OTHER -> r.k) ELSE r.k
           IN SelectSeq([e \in 1..kk |-> x * r.k + e], LAMBDA y : y < Many)
      [] r.fam = "comb" ->
           LET l == x \div 16
               e == x % 16
               all == IF e = 0 THEN [m \in 1..r.k |-> 16 * l + m] \o <<16 * (l + 1), 16 * l + 15>>
                      ELSE IF e = 15 THEN <<16 * (l + 1) + 15>> ELSE << >>
           IN SelectSeq(all, LAMBDA y : y < Many)
      [] r.fam = "wide" -> IF x = 0 THEN [m \in 1..(r.d + 3) |-> m] ELSE IF x < r.d + 4 THEN <<x + r.d + 4>> ELSE << >>
Special == CASE r.fam = "tree" -> IF r.how = 0 THEN r.d ELSE -1
             [] r.fam = "comb" -> 16 * r.d + 1 + r.j
             [] r.fam = "wide" -> r.d + 1
G == TLCEval([lab |-> [k \in 1..(2 * Many) |-> IF k - 1 = 2 * Special + 1 THEN 1 ELSE 0],
              adj |-> [k \in 1..(2 * Many) |->
                 LET e == Edges((k - 1) \div 2, (k - 1) % 2) IN [i \in DOMAIN e |-> 2 * e[i] + ((k - 1) % 2) + 1]]])

\* The plain walk, with what it compares.
Walked ==
    LET Do(acc) ==
          IF acc.res # <<"going">> THEN acc
          ELSE IF acc.q = << >> THEN [acc EXCEPT !.res = Eq]
          ELSE LET h == Head(acc.q)
                   t == Tail(acc.q)
               IN IF h[1] = "amt" THEN [acc EXCEPT !.res = h]
                  ELSE LET x == h[2]
                           y == h[3]
                           out == Append(acc.out, <<(x - 1) \div 2, 1>>)
                       IN IF Local(G, x, y) # Eq THEN [acc EXCEPT !.res = Local(G, x, y), !.out = out]
                          ELSE [acc EXCEPT !.q = IF r.bf THEN t \o BfsItems(G, x, y) ELSE BfsItems(G, x, y) \o t, !.out = out]
    IN FoldLeft(LAMBDA acc, k : Do(acc), [q |-> <<<<"pair", 1, 2>>>>, res |-> <<"going">>, out |-> << >>], [k \in 1..2000 |-> k])
Shown(res) == IF res[1] = "loc" THEN <<"loc", res[2] - 1, res[3] - 1>> ELSE res
RunsRight == (st = 1 /\ (r.bf \/ DfFinds(r))) =>
    LET w == Walked IN Shown(w.res) = Difference(r) /\ Norm(w.out) = Norm(Main(r))
=============================================================================
