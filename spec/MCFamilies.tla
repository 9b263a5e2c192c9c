----------------------------- MODULE MCFamilies -----------------------------
(***************************************************************************)
(* The closed forms of Families are those of the walks of GraphOps, for all  *)
(* small members of the families, written out as graphs.                     *)
(***************************************************************************)
EXTENDS Families
CONSTANTS MaxN, MaxW
VARIABLES r, st
Fams == {"chain", "degen", "ring", "cycles", "grid", "tree", "two", "fan", "broom", "wide", "unroll", "uneven"}
Init == /\ st = 0
        /\ \E fam \in Fams : \E n \in 1..MaxN : \E w \in 1..MaxW : \E differ \in BOOLEAN :
             LET last == CASE fam = "two" -> n - 1 [] fam = "fan" -> n + n * w [] fam = "chain" -> w - 1 [] fam = "broom" -> n [] fam = "uneven" -> 2 [] OTHER -> 0 IN
             \E p \in 0..last : \E q \in 0..(IF fam \in {"two", "fan"} THEN last ELSE IF fam = "broom" THEN MaxN ELSE 0) :
             /\ (fam = "unroll" => differ) /\ (fam = "broom" => p >= 1) /\ (fam \in {"two", "fan"} => q >= p)
             /\ (fam \in {"two", "fan"} /\ ~differ => p + q = 0)
             /\ r = [fam |-> fam, n |-> IF fam = "uneven" THEN n - 1 ELSE n, w |-> IF fam \in {"broom", "uneven"} THEN w - 1 ELSE w, p |-> p, q |-> q, differ |-> differ, kind |-> "rich"]
\* Written as a step so that TLC's workers share the work.
Next == st = 0 /\ st' = 1 /\ r' = r
Spec == Init /\ [][Next]_<<r, st>>

(* Nodes x of one side; edges of x; label of x. *)
Many == CASE r.fam = "chain" -> r.n * (r.w + 1)
          [] r.fam \in {"degen", "ring", "tree", "two"} -> r.n
          [] r.fam = "cycles" -> IF r.n > r.w THEN r.n ELSE r.w
          [] r.fam = "grid" -> r.n * r.n
          [] r.fam = "wide" -> r.n + 1
          [] r.fam = "fan" -> 1 + r.n + r.n * r.w
          [] r.fam = "broom" -> 1 + r.n + r.n * r.w + r.q
          [] r.fam = "uneven" -> r.p + 1 + (IF r.n > r.w THEN r.n ELSE r.w)
          [] r.fam = "unroll" -> IF r.n > r.w + 2 THEN r.n ELSE r.w + 2
Edges(x, s) ==
    CASE r.fam = "chain" ->
           LET lv == x \div (r.w + 1)
               j == x % (r.w + 1)
           IN IF j # 0 \/ lv + 1 >= r.n THEN << >>
              ELSE [i \in 1..r.w |-> IF i - 1 = r.p THEN (lv + 1) * (r.w + 1) ELSE lv * (r.w + 1) + i]
      [] r.fam = "degen" -> IF x + 1 < r.n THEN [i \in 1..r.w |-> x + 1] ELSE << >>
      [] r.fam = "ring"  -> [i \in 1..r.w |-> (x + 1) % r.n]
      [] r.fam = "cycles" -> LET len == IF s = 0 THEN r.n ELSE r.w IN [i \in 1..2 |-> (x + 1) % len]
      [] r.fam = "grid"  -> (IF x \div r.n + 1 < r.n THEN <<x + r.n>> ELSE << >>) \o (IF (x % r.n) + 1 < r.n THEN <<x + 1>> ELSE << >>)
      [] r.fam \in {"tree", "two"} -> SelectSeq([i \in 1..r.w |-> x * r.w + i], LAMBDA y : y < r.n)
      [] r.fam = "fan"   -> IF x = 0 THEN [i \in 1..r.n |-> i]
                            ELSE IF x <= r.n THEN [i \in 1..r.w |-> r.n + (x - 1) * r.w + i] ELSE << >>
      [] r.fam = "broom" -> LET chain == IF x <= r.n THEN x ELSE ((x - r.n - 1) \div r.w) + 1
                                 at == IF x <= r.n THEN 0 ELSE ((x - r.n - 1) % r.w) + 1
                                 more == r.n + r.n * r.w
                            IN IF x = 0 THEN [i \in 1..r.n |-> i]
                               ELSE IF x > more THEN (IF x < more + r.q THEN <<x + 1>> ELSE << >>)
                               ELSE IF at < r.w THEN <<r.n + (chain - 1) * r.w + at + 1>>
                               ELSE IF chain = r.p /\ r.q > 0 THEN <<more + 1>> ELSE << >>
      [] r.fam = "wide"  -> IF x = 0 THEN [i \in 1..r.n |-> i] ELSE << >>
      [] r.fam = "uneven" -> LET many == IF x < r.p THEN 1 ELSE IF x > r.p THEN 0 ELSE IF s = 0 THEN r.n ELSE r.w
                             IN [i \in 1..many |-> x + i]
      [] r.fam = "unroll" -> IF s = 0 THEN <<(x + 1) % r.n>> ELSE IF x + 1 < Many THEN <<x + 1>> ELSE << >>
\* Nodes of the right side with another label.
Special == CASE r.fam = "chain" -> (r.n - 1) * (r.w + 1)
             [] r.fam \in {"degen", "ring", "tree"} -> r.n - 1
             [] r.fam \in {"two", "fan"} -> r.q
             [] r.fam = "cycles" -> r.w - 1
             [] r.fam = "grid" -> r.n * r.n - 1
             [] r.fam = "broom" -> BroomEnd(r)
             [] r.fam = "wide" -> r.n
             [] r.fam = "unroll" -> r.w
             [] r.fam = "uneven" -> 0
\* Written out: node 2 * x + s is node 2 * x + s + 1 here.
G == TLCEval([lab |-> [k \in 1..(2 * Many) |-> IF Differs(r) /\ r.fam # "uneven" /\ (k - 1 = 2 * Special + 1 \/ (r.fam \in {"two", "fan"} /\ k - 1 = 2 * r.p + 1)) THEN 1 ELSE 0],
              adj |-> [k \in 1..(2 * Many) |->
                 LET e == Edges((k - 1) \div 2, (k - 1) % 2) IN [i \in DOMAIN e |-> 2 * e[i] + ((k - 1) % 2) + 1]]])
Want(bf) == LET a == Answer(r, bf) IN IF a[1] = "loc" THEN <<"loc", a[2] + 1, a[3] + 1>> ELSE a

Same(bf) == LET w == LimWalk(G, 1, 2, bf, 3000) IN w.res = Want(bf) /\ w.visits = Plain(r, bf)
FormsRight ==
    st = 1 =>
      /\ NoSharing(r) => Same(TRUE) /\ Same(FALSE)
      /\ ~NoSharing(r) => /\ Bfs(G, 1, 2) = Want(TRUE)
                          /\ Bisim(G, 1, 2) = ~Differs(r)
                          /\ Cardinality(BranchNodes(G, {1, 2})) = Branches(r)
                          /\ MaxDeg(G, {1, 2}) <= Width(r)
DfsRight == (st = 1 /\ ~NoSharing(r) /\ Acyclic(G, {1, 2})) => Dfs(G, 1, 2) = Want(FALSE)
=============================================================================
