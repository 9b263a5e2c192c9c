----------------------------- MODULE PolicyProof -----------------------------
(* Proofs, checked by tlapm, that Policy's answers are right: for graphs of   *)
(* every size and shape, and every policy.                                   *)
EXTENDS Policy, TLAPS

ASSUME Typed ==
    /\ A \in Node /\ B \in Node
    /\ \A x \in Node : \A i \in DOMAIN Kids[x] : Kids[x][i] \in Node

ATypeOK == /\ todo \in SUBSET Pairs /\ same \in SUBSET Pairs /\ uneven \in BOOLEAN
           /\ ans \in {"none", "eq", "ne", "limit"}

IsEquiv(R) ==
    /\ R \in SUBSET Pairs
    /\ \A x \in Node : <<x, x>> \in R
    /\ \A x, y \in Node : <<x, y>> \in R => <<y, x>> \in R
    /\ \A x, y, z \in Node : <<x, y>> \in R /\ <<y, z>> \in R => <<x, z>> \in R

\* The least equivalence that contains V.
Cl(V) == {p \in Pairs : \A R \in SUBSET Pairs : IsEquiv(R) /\ V \subseteq R => p \in R}

\* Two nodes that agree, as far as C knows about their edges.
Good(C) == {p \in Pairs : /\ SameValues(p[1], p[2]) /\ SameAmount(p[1], p[2])
                          /\ KidPairs(p[1], p[2]) \subseteq C}

(* A set of pairs whose edges lead to pairs in its closure is sound: what an  *)
(* algorithm with memory has looked at suffices.                             *)
LEMMA KidTyped == ASSUME NEW x \in Node, NEW y \in Node PROVE KidPairs(x, y) \subseteq Pairs
  BY Typed DEF KidPairs, Pairs

LEMMA ClEquiv == ASSUME NEW V \in SUBSET Pairs PROVE IsEquiv(Cl(V)) /\ V \subseteq Cl(V)
  BY DEF IsEquiv, Cl, Pairs

LEMMA GoodEquiv == ASSUME NEW C, IsEquiv(C) PROVE IsEquiv(Good(C))
  <1>1. Good(C) \in SUBSET Pairs BY DEF Good
  <1>2. ASSUME NEW x \in Node PROVE <<x, x>> \in Good(C)
    BY Typed DEF Good, IsEquiv, Pairs, SameValues, SameAmount, KidPairs
  <1>3. ASSUME NEW x \in Node, NEW y \in Node, <<x, y>> \in Good(C) PROVE <<y, x>> \in Good(C)
    BY Typed, <1>3 DEF Good, IsEquiv, Pairs, SameValues, SameAmount, KidPairs
  <1>4. ASSUME NEW x \in Node, NEW y \in Node, NEW z \in Node,
               <<x, y>> \in Good(C), <<y, z>> \in Good(C)
        PROVE <<x, z>> \in Good(C)
    <2>1. SameValues(x, z) /\ SameAmount(x, z) BY <1>4 DEF Good, SameValues, SameAmount
    <2>2. ASSUME NEW i \in DOMAIN Kids[x] \cap DOMAIN Kids[z] PROVE <<Kids[x][i], Kids[z][i]>> \in C
      <3>1. i \in DOMAIN Kids[y] BY <1>4, <2>2 DEF Good, SameAmount
      <3>2. <<Kids[x][i], Kids[y][i]>> \in C BY <1>4, <2>2, <3>1 DEF Good, KidPairs
      <3>3. <<Kids[y][i], Kids[z][i]>> \in C BY <1>4, <2>2, <3>1 DEF Good, KidPairs
      <3> QED BY <3>1, <3>2, <3>3, <2>2, Typed DEF IsEquiv
    <2> QED BY <2>1, <2>2 DEF Good, KidPairs, Pairs
  <1> QED BY <1>1, <1>2, <1>3, <1>4 DEF IsEquiv

THEOREM UpTo ==
  ASSUME NEW V \in SUBSET Pairs, V \subseteq Good(Cl(V))
  PROVE  IsBisim(Cl(V))
  <1>1. IsEquiv(Good(Cl(V))) BY ClEquiv, GoodEquiv
  <1>2. Cl(V) \subseteq Good(Cl(V)) BY <1>1 DEF Cl, Good
  <1> QED BY <1>2 DEF Good, IsBisim

(* The first half: "eq" only of the equivalent.  V is what was descended.     *)
Owed(V) == todo \cup Cl(V)
Sound(V) ==
    /\ IsEquiv(same) /\ same \subseteq Cl(V)
    /\ \A p \in V : /\ SameValues(p[1], p[2])
                    /\ uneven \/ (SameAmount(p[1], p[2]) /\ KidPairs(p[1], p[2]) \subseteq Owed(V))
    /\ uneven \/ <<A, B>> \in Owed(V)
SoundInv == ATypeOK /\ (ans = "none" => \E V \in SUBSET Pairs : Sound(V)) /\ (ans = "eq" => Equivalent)

LEMMA IdentEquiv == IsEquiv(Ident)
  BY DEF IsEquiv, Ident, Pairs

LEMMA ClMono == ASSUME NEW V \in SUBSET Pairs, NEW W \in SUBSET Pairs, V \subseteq W PROVE Cl(V) \subseteq Cl(W)
  BY DEF Cl

LEMMA JoinEquiv == ASSUME ATypeOK, IsEquiv(same), NEW x \in Node, NEW y \in Node PROVE IsEquiv(Join(x, y))
  <1>1. Join(x, y) \in SUBSET Pairs BY DEF Join
  <1>2. \A u \in Node : <<u, u>> \in Join(x, y) BY DEF Join, IsEquiv, Pairs
  <1>3. ASSUME NEW u \in Node, NEW v \in Node, <<u, v>> \in Join(x, y) PROVE <<v, u>> \in Join(x, y)
    BY <1>3 DEF Join, IsEquiv, Pairs
  <1>4. ASSUME NEW u \in Node, NEW v \in Node, NEW w \in Node, <<u, v>> \in Join(x, y), <<v, w>> \in Join(x, y)
        PROVE <<u, w>> \in Join(x, y)
    BY <1>4 DEF Join, IsEquiv, Pairs
  <1> QED BY <1>1, <1>2, <1>3, <1>4 DEF IsEquiv

LEMMA JoinLeast ==
  ASSUME ATypeOK, NEW x \in Node, NEW y \in Node, NEW V \in SUBSET Pairs, same \subseteq Cl(V), <<x, y>> \in V
  PROVE  Join(x, y) \subseteq Cl(V)
  <1>1. IsEquiv(Cl(V)) /\ <<x, y>> \in Cl(V) BY ClEquiv
  <1>2. ASSUME NEW u \in Node, NEW v \in Node, <<u, v>> \in Join(x, y) PROVE <<u, v>> \in Cl(V)
    BY <1>1, <1>2 DEF Join, IsEquiv
  <1> QED BY <1>2 DEF Join, Pairs

LEMMA InitSound == AInit => SoundInv
  <1> SUFFICES ASSUME AInit PROVE SoundInv OBVIOUS
  <1>1. ATypeOK BY Typed DEF AInit, ATypeOK, Pairs, Ident
  <1>2. Sound({})
    <2>1. IsEquiv(Cl({})) BY ClEquiv
    <2>2. same \subseteq Cl({}) BY <2>1 DEF AInit, Ident, Pairs, IsEquiv
    <2> QED BY <2>2, IdentEquiv DEF Sound, AInit, Owed
  <1> QED BY <1>1, <1>2 DEF SoundInv, AInit

LEMMA NextTyped == ASSUME ATypeOK, [ANext]_avars PROVE ATypeOK'
  <1>1. CASE UNCHANGED avars BY <1>1 DEF ATypeOK, avars
  <1>2. ASSUME NEW p \in todo, Visit(p[1], p[2]) PROVE ATypeOK'
    <2> DEFINE x == p[1]  y == p[2]
    <2>1. p \in Pairs /\ x \in Node /\ y \in Node /\ KidPairs(x, y) \subseteq Pairs BY KidTyped DEF ATypeOK, Pairs
    <2>2. Join(x, y) \in SUBSET Pairs BY DEF Join
    <2> HIDE DEF x, y
    <2>3. CASE Differ(x, y) BY <2>3 DEF Differ, Dropped, ATypeOK
    <2>4. CASE Skip(x, y) BY <2>4 DEF Skip, Without, ATypeOK
    <2>5. CASE Descend(x, y) BY <2>5, <2>1, <2>2 DEF Descend, Without, ATypeOK
    <2> QED BY <1>2, <2>3, <2>4, <2>5 DEF Visit, x, y
  <1>3. CASE Restart BY <1>3, Typed DEF Restart, ATypeOK, Pairs, Ident
  <1>4. CASE Uneven BY <1>4 DEF Uneven, Dropped, ATypeOK
  <1>5. CASE Limit BY <1>5 DEF Limit, Dropped, ATypeOK
  <1>6. CASE End BY <1>6 DEF End, ATypeOK
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF ANext

LEMMA DescendSound ==
  ASSUME ATypeOK, ATypeOK', ans = "none", NEW V \in SUBSET Pairs, Sound(V), NEW x \in Node, NEW y \in Node, Descend(x, y)
  PROVE  \E W \in SUBSET Pairs : Sound(W)'
  <1> DEFINE W == V \cup {<<x, y>>}
  <1>1. W \in SUBSET Pairs BY DEF Pairs
  <1>2. Cl(V) \subseteq Cl(W) BY <1>1, ClMono
  <1>3. <<x, y>> \in Cl(W) BY <1>1, ClEquiv
  <1>4. same \subseteq Cl(W) BY <1>2 DEF Sound
  <1>5. IsEquiv(same') /\ same' \subseteq Cl(W)
    BY <1>1, <1>4, JoinEquiv, JoinLeast DEF Descend, Sound
  <1>u. uneven' <=> uneven \/ ~SameAmount(x, y) BY DEF Descend
  <1>6. ~uneven' => Owed(V) \subseteq todo' \cup Cl(W) BY <1>2, <1>3, <1>u DEF Owed, Descend, Without
  <1>7. ~uneven' => KidPairs(x, y) \subseteq todo' BY <1>u DEF Descend
  <1>8. \A p \in W : /\ SameValues(p[1], p[2])
                     /\ uneven' \/ (SameAmount(p[1], p[2]) /\ KidPairs(p[1], p[2]) \subseteq todo' \cup Cl(W))
    <2>1. ASSUME NEW p \in V
          PROVE /\ SameValues(p[1], p[2])
                /\ uneven' \/ (SameAmount(p[1], p[2]) /\ KidPairs(p[1], p[2]) \subseteq todo' \cup Cl(W))
      BY <2>1, <1>6, <1>u DEF Sound
    <2>2. SameValues(x, y) /\ (uneven' \/ SameAmount(x, y)) BY DEF Descend
    <2> QED BY <2>1, <2>2, <1>7
  <1>9. uneven' \/ <<A, B>> \in todo' \cup Cl(W) BY <1>6, <1>u DEF Sound
  <1>10. Sound(W)' BY <1>5, <1>8, <1>9 DEF Sound, Owed, IsEquiv, Cl, Pairs, KidPairs, SameValues, SameAmount
  <1> QED BY <1>1, <1>10

LEMMA SkipSound ==
  ASSUME ATypeOK, ans = "none", NEW V \in SUBSET Pairs, Sound(V), NEW x \in Node, NEW y \in Node, Skip(x, y)
  PROVE  Sound(V)'
  <1>1. <<x, y>> \in Cl(V) BY DEF Skip, Sound
  <1>2. Owed(V) \subseteq todo' \cup Cl(V) BY <1>1 DEF Owed, Skip, Without
  <1>3. same' = same /\ uneven' = uneven BY DEF Skip
  <1>4. \A p \in V : /\ SameValues(p[1], p[2])
                     /\ uneven' \/ (SameAmount(p[1], p[2]) /\ KidPairs(p[1], p[2]) \subseteq todo' \cup Cl(V))
    BY <1>2, <1>3 DEF Sound
  <1>5. uneven' \/ <<A, B>> \in todo' \cup Cl(V) BY <1>2, <1>3 DEF Sound
  <1> QED BY <1>3, <1>4, <1>5 DEF Sound, Owed, IsEquiv, Cl, Pairs, KidPairs, SameValues, SameAmount

LEMMA RestartSound == ASSUME Restart PROVE Sound({})'
  <1>1. IsEquiv(Cl({})) BY ClEquiv
  <1>2. Ident \subseteq Cl({}) BY <1>1 DEF Ident, Pairs, IsEquiv
  <1>3. todo' = {<<A, B>>} /\ same' = Ident BY DEF Restart
  <1> QED BY <1>2, <1>3, IdentEquiv DEF Sound, Owed, IsEquiv, Cl, Pairs, KidPairs, SameValues, SameAmount

LEMMA EndSound ==
  ASSUME ATypeOK, NEW V \in SUBSET Pairs, Sound(V), End
  PROVE  Equivalent
  <1>1. V \subseteq Good(Cl(V)) BY DEF Sound, Owed, End, Good
  <1>2. IsBisim(Cl(V)) BY <1>1, UpTo
  <1>3. <<A, B>> \in Cl(V) BY DEF Sound, Owed, End
  <1>4. Cl(V) \in SUBSET Pairs BY DEF Cl
  <1> QED BY <1>2, <1>3, <1>4 DEF Equivalent

LEMMA NextSound == SoundInv /\ [ANext]_avars => SoundInv'
  <1> SUFFICES ASSUME SoundInv, [ANext]_avars PROVE SoundInv' OBVIOUS
  <1>0. ATypeOK' BY NextTyped DEF SoundInv
  <1>e. Equivalent' = Equivalent BY DEF Equivalent, IsBisim, SameValues, SameAmount, KidPairs, Pairs
  <1>1. CASE UNCHANGED avars
    <2>1. ASSUME NEW V \in SUBSET Pairs, Sound(V) PROVE Sound(V)'
      BY <1>1, <2>1 DEF Sound, Owed, avars, IsEquiv, Cl, Pairs, KidPairs, SameValues, SameAmount
    <2> QED BY <1>0, <1>e, <1>1, <2>1 DEF SoundInv, avars
  <1>2. ASSUME ANext PROVE SoundInv'
    <2>1. ans = "none" BY <1>2 DEF ANext
    <2>2. PICK V \in SUBSET Pairs : Sound(V) BY <2>1 DEF SoundInv
    <2>3. ASSUME NEW p \in todo, Visit(p[1], p[2]) PROVE SoundInv'
      <3>1. p[1] \in Node /\ p[2] \in Node BY DEF SoundInv, ATypeOK, Pairs
      <3>2. CASE Differ(p[1], p[2]) BY <3>2, <1>0 DEF Differ, Dropped, SoundInv
      <3>3. CASE Skip(p[1], p[2])
        <4>1. Sound(V)' BY <3>1, <3>3, <2>1, <2>2, SkipSound DEF SoundInv
        <4>2. ans' = "none" BY <3>3, <2>1 DEF Skip
        <4> QED BY <4>1, <4>2, <1>0 DEF SoundInv
      <3>4. CASE Descend(p[1], p[2])
        <4>1. \E W \in SUBSET Pairs : Sound(W)' BY <3>1, <3>4, <2>1, <2>2, <1>0, DescendSound DEF SoundInv
        <4>2. ans' = "none" BY <3>4, <2>1 DEF Descend
        <4> QED BY <4>1, <4>2, <1>0 DEF SoundInv
      <3> QED BY <2>3, <3>2, <3>3, <3>4 DEF Visit
    <2>4. CASE Restart
      <3>1. ans' = "none" BY <2>4, <2>1 DEF Restart
      <3> QED BY <2>4, <3>1, <1>0, RestartSound DEF SoundInv
    <2>5. CASE Uneven BY <2>5, <1>0 DEF Uneven, Dropped, SoundInv
    <2>6. CASE Limit BY <2>6, <1>0 DEF Limit, Dropped, SoundInv
    <2>7. CASE End
      <3>1. Equivalent BY <2>7, <2>2, EndSound DEF SoundInv
      <3> QED BY <2>7, <3>1, <1>0, <1>e DEF End, SoundInv
    <2> QED BY <1>2, <2>3, <2>4, <2>5, <2>6, <2>7 DEF ANext
  <1> QED BY <1>1, <1>2

(* The second half: "ne" never of the equivalent.                            *)
CompleteInv ==
    /\ ATypeOK
    /\ \A R \in SUBSET Pairs : IsBisim(R) /\ <<A, B>> \in R => todo \subseteq R /\ ~uneven /\ ans # "ne"

LEMMA InitComplete == AInit => CompleteInv
  BY InitSound DEF AInit, CompleteInv, SoundInv

LEMMA NextComplete == CompleteInv /\ [ANext]_avars => CompleteInv'
  <1> SUFFICES ASSUME CompleteInv, [ANext]_avars PROVE CompleteInv' OBVIOUS
  <1>0. ATypeOK' BY NextTyped DEF CompleteInv
  <1> SUFFICES ASSUME NEW R \in SUBSET Pairs, IsBisim(R), <<A, B>> \in R
               PROVE todo' \subseteq R /\ ~uneven' /\ ans' # "ne"
    BY <1>0 DEF CompleteInv, IsBisim, Pairs, KidPairs, SameValues, SameAmount
  <1>a. todo \subseteq R /\ ~uneven /\ ans # "ne" BY DEF CompleteInv
  <1>1. CASE UNCHANGED avars BY <1>1, <1>a DEF avars
  <1>2. ASSUME NEW p \in todo, Visit(p[1], p[2]) PROVE todo' \subseteq R /\ ~uneven' /\ ans' # "ne"
    <2>1. SameValues(p[1], p[2]) /\ SameAmount(p[1], p[2]) /\ KidPairs(p[1], p[2]) \subseteq R BY <1>a DEF IsBisim
    <2>2. CASE Differ(p[1], p[2]) BY <2>1, <2>2 DEF Differ, Dropped
    <2>3. CASE Skip(p[1], p[2]) BY <1>a, <2>3 DEF Skip, Without
    <2>4. CASE Descend(p[1], p[2]) BY <1>a, <2>1, <2>4 DEF Descend, Without
    <2> QED BY <1>2, <2>2, <2>3, <2>4 DEF Visit
  <1>3. CASE Restart BY <1>3, <1>a DEF Restart
  <1>4. CASE Uneven BY <1>4, <1>a DEF Uneven, Dropped
  <1>5. CASE Limit BY <1>5, <1>a DEF Limit, Dropped
  <1>6. CASE End BY <1>6, <1>a DEF End
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF ANext

THEOREM AlwaysRight == ASpec => []Right
  <1>1. ASpec => []SoundInv BY InitSound, NextSound, PTL DEF ASpec
  <1>2. ASpec => []CompleteInv BY InitComplete, NextComplete, PTL DEF ASpec
  <1>3. SoundInv /\ CompleteInv => Right BY DEF SoundInv, CompleteInv, Right, Equivalent
  <1> QED BY <1>1, <1>2, <1>3, PTL
==============================================================================
