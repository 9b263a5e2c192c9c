------------------------------ MODULE MCRefine -------------------------------
(* Compare does only what Policy allows, so that what PolicyProof proves for   *)
(* all graphs holds of Compare.  Checked over every graph of a small size.     *)
EXTENDS MCCompare

Remaining(it) ==
    LET d == IF Deg(g, it[1]) < Deg(g, it[2]) THEN Deg(g, it[1]) ELSE Deg(g, it[2])
    IN {<<Id(g.adj[it[1]][i]), Id(g.adj[it[2]][i])>> : i \in it[3]..d}
Todo == (IF pc \in {"visit", "edges"} THEN {<<Id(cur[1]), Id(cur[2])>>} ELSE {})
        \cup UNION {Remaining(pend[k]) : k \in 1..Len(pend)}
IsUneven == \E k \in 1..Len(pend) : Deg(g, pend[k][1]) # Deg(g, pend[k][2])
Ident_(j) == IF j.ids = << >> THEN 1..N(j.g) ELSE {j.ids[x] : x \in 1..N(j.g)}
Same == {p \in Ident_(job) \X Ident_(job) : cls[p[1]] = cls[p[2]]}
Ans == CASE res = NoRes -> "none" [] res = Eq -> "eq" [] res = LimitRes -> "limit" [] OTHER -> "ne"

\* Edges by identity, in one order of all.
Kids_(j) == IF j.ids = << >> THEN j.g.adj
            ELSE [x \in Ident_(j) |-> [i \in 1..Deg(j.g, x) |-> j.ids[j.g.adj[x][i]]]]

Pol(Node, Kids, Lab, A, B) == INSTANCE Policy WITH todo <- Todo, uneven <- IsUneven, same <- Same, ans <- Ans

RefinesInit ==
    (Running /\ pc = "visit" /\ cnt = Zero /\ stage = (IF job.pre THEN "pre" ELSE "main")) =>
        \A j \in {job} : Pol(Ident_(j), Kids_(j), j.g.lab, j.a, j.b)!AInit
RefinesStep ==
    Running =>
        \A j \in {job} : \/ Pol(Ident_(j), Kids_(j), j.g.lab, j.a, j.b)!ANext
                         \/ Pol(Ident_(j), Kids_(j), j.g.lab, j.a, j.b)!ASame
Refines == [][RefinesStep]_vars

\* Stuttering alone ends nothing: what Policy says is right is said of Compare.
RightHere == Running => \A j \in {job} : Pol(Ident_(j), Kids_(j), j.g.lab, j.a, j.b)!Right

JobsAll == JobsInterleave \o JobsStack \o JobsPre
==============================================================================
