------------------------------- MODULE WorkProof ------------------------------
(* Proofs, checked by tlapm, of the bound on Work: for graphs of every size,  *)
(* limits of every size, every policy of fetching and everything drawn.       *)
EXTENDS Work, FiniteSets, FiniteSetTheorems, TLAPS

ASSUME Given == IsFiniteSet(Br) /\ D \in Nat /\ F \in Nat /\ S \in Nat /\ S >= 1

WTypeOK == /\ slots \in Nat /\ visits \in Nat /\ merges \in Nat /\ fast \in Nat /\ draws \in Nat
           /\ tick \in Int /\ reps \in SUBSET Br

Pos(x) == IF x > 0 THEN x ELSE 0

Budget == fast + Pos(tick) <= (F + 1) * draws    \* a draw pays for a fast run
Earned == S * draws + Pos(-tick) <= merges       \* merges pay for a draw
Owed == visits + slots <= 1 + D * (merges + fast)
Apart == merges + Cardinality(reps) = Cardinality(Br) /\ (Br # {} => reps # {})

WInv == WTypeOK /\ Budget /\ Earned /\ Owed /\ Apart

LEMMA More == \A a, b, c \in Nat : a <= b => c * a <= c * b /\ a * c <= b * c
  OBVIOUS
LEMMA Step == \A a, b \in Nat : a * (b + 1) = a * b + a
  OBVIOUS

LEMMA Zero == \A a \in Nat : a * 0 = 0
  OBVIOUS

LEMMA WInitInv == WInit => WInv
  <1> SUFFICES ASSUME WInit PROVE WInv OBVIOUS
  <1> USE Given
  <1>1. WTypeOK BY DEF WInit, WTypeOK
  <1>2. Budget /\ Earned /\ Owed
    <2>1. (F + 1) * 0 = 0 /\ S * 0 = 0 /\ D * (0 + 0) = 0 BY Zero
    <2> QED BY <2>1 DEF WInit, Pos, Budget, Earned, Owed
  <1>3. Apart
    <2>1. Cardinality(Br) \in Nat BY FS_CardinalityType
    <2> QED BY <2>1 DEF WInit, Apart
  <1> QED BY <1>1, <1>2, <1>3 DEF WInv

LEMMA OpenOwed ==
  ASSUME WInv, NEW d \in Nat, merges' + fast' = merges + fast + 1, Open, visits' = visits,
         merges' \in Nat, fast' \in Nat
  PROVE  slots' \in Nat /\ Owed'
  <1>1. PICK k \in 0..D : slots' = slots + k BY DEF Open
  <1>2. D * (merges' + fast') = D * (merges + fast) + D
    <2>1. merges + fast \in Nat BY DEF WInv, WTypeOK
    <2> QED BY <2>1, Step, Given
  <1>3. slots \in Nat /\ visits \in Nat /\ D * (merges + fast) \in Nat BY Given DEF WInv, WTypeOK
  <1> QED BY <1>1, <1>2, <1>3, Given DEF WInv, Owed

LEMMA WNextInv == WInv /\ [WNext]_wvars => WInv'
  <1> SUFFICES ASSUME WInv, [WNext]_wvars PROVE WInv' OBVIOUS
  <1> USE Given
  <1>1. CASE Look
    <2>1. WTypeOK' BY <1>1 DEF WInv, WTypeOK, Look
    <2>2. Budget' /\ Earned' /\ Apart' BY <1>1 DEF WInv, Budget, Earned, Apart, Look, Pos
    <2>3. Owed' BY <1>1 DEF WInv, WTypeOK, Owed, Look
    <2> QED BY <2>1, <2>2, <2>3 DEF WInv
  <1>2. CASE InFast
    <2>1. slots' \in Nat /\ Owed' BY <1>2, OpenOwed DEF InFast, WInv, WTypeOK
    <2>2. WTypeOK' BY <1>2, <2>1 DEF WInv, WTypeOK, InFast
    <2>3. Budget'
      <3>1. (F + 1) * draws \in Nat BY DEF WInv, WTypeOK
      <3> QED BY <1>2, <3>1 DEF WInv, WTypeOK, InFast, Budget, Pos
    <2>4. Earned'
      <3>1. S * draws \in Nat BY DEF WInv, WTypeOK
      <3> QED BY <1>2, <3>1 DEF WInv, WTypeOK, InFast, Earned, Pos
    <2>5. Apart' BY <1>2 DEF WInv, InFast, Apart
    <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF WInv
  <1>3. CASE IntoFast
    <2>1. slots' \in Nat /\ Owed' BY <1>3, OpenOwed DEF IntoFast, WInv, WTypeOK
    <2>2. WTypeOK' BY <1>3, <2>1 DEF WInv, WTypeOK, IntoFast
    <2>3. Budget'
      <3>1. (F + 1) * (draws + 1) = (F + 1) * draws + (F + 1) BY Step DEF WInv, WTypeOK
      <3>2. (F + 1) * draws \in Nat BY DEF WInv, WTypeOK
      <3>3. fast <= (F + 1) * draws BY <3>2 DEF WInv, WTypeOK, Budget, Pos
      <3> QED BY <1>3, <3>1, <3>2, <3>3 DEF WInv, WTypeOK, IntoFast, Budget, Pos
    <2>4. Earned'
      <3>1. S * (draws + 1) = S * draws + S BY Step DEF WInv, WTypeOK
      <3>2. S * draws \in Nat BY DEF WInv, WTypeOK
      <3> QED BY <1>3, <3>1, <3>2 DEF WInv, WTypeOK, IntoFast, Earned, Pos
    <2>5. Apart' BY <1>3 DEF WInv, IntoFast, Apart
    <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF WInv
  <1>4. CASE Hit
    <2>1. WTypeOK' BY <1>4 DEF WInv, WTypeOK, Hit
    <2>2. Budget'
      <3>1. (F + 1) * draws \in Nat BY DEF WInv, WTypeOK
      <3> QED BY <1>4, <3>1 DEF WInv, WTypeOK, Hit, Budget, Pos
    <2>3. Earned'
      <3>1. S * draws \in Nat BY DEF WInv, WTypeOK
      <3> QED BY <1>4, <3>1 DEF WInv, WTypeOK, Hit, Earned, Pos
    <2>4. Owed' /\ Apart' BY <1>4 DEF WInv, Owed, Apart, Hit
    <2> QED BY <2>1, <2>2, <2>3, <2>4 DEF WInv
  <1>5. CASE InSlow
    <2>1. slots' \in Nat /\ Owed' BY <1>5, OpenOwed DEF InSlow, WInv, WTypeOK
    <2>2. WTypeOK' BY <1>5, <2>1 DEF WInv, WTypeOK, InSlow
    <2>3. Budget'
      <3>1. (F + 1) * draws \in Nat BY DEF WInv, WTypeOK
      <3> QED BY <1>5, <3>1 DEF WInv, WTypeOK, InSlow, Budget, Pos
    <2>4. Earned'
      <3>1. S * draws \in Nat BY DEF WInv, WTypeOK
      <3> QED BY <1>5, <3>1 DEF WInv, WTypeOK, InSlow, Earned, Pos
    <2>5. Apart'
      <3>1. PICK x \in reps, y \in reps : x # y /\ reps' = reps \ {x} BY <1>5 DEF InSlow
      <3>2. IsFiniteSet(reps) BY FS_Subset DEF WInv, WTypeOK
      <3>3. Cardinality(reps') = Cardinality(reps) - 1 BY <3>1, <3>2, FS_RemoveElement
      <3>4. y \in reps' BY <3>1
      <3>5. Cardinality(reps) \in Nat /\ Cardinality(Br) \in Nat BY <3>2, FS_CardinalityType
      <3> QED BY <1>5, <3>3, <3>4, <3>5 DEF WInv, WTypeOK, InSlow, Apart
    <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF WInv
  <1>6. CASE Drop
    <2>1. WTypeOK' BY <1>6 DEF WInv, WTypeOK, Drop
    <2>2. Budget' /\ Earned' /\ Apart' BY <1>6 DEF WInv, Budget, Earned, Apart, Drop, Pos
    <2>3. Owed'
      <3>1. D * (merges + fast) \in Nat BY DEF WInv, WTypeOK
      <3> QED BY <1>6, <3>1 DEF WInv, WTypeOK, Owed, Drop
    <2> QED BY <2>1, <2>2, <2>3 DEF WInv
  <1>7. CASE UNCHANGED wvars
    BY <1>7 DEF WInv, WTypeOK, Budget, Earned, Owed, Apart, wvars, Pos
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7 DEF WNext

LEMMA Fewer == WInv => merges <= (IF Cardinality(Br) > 0 THEN Cardinality(Br) - 1 ELSE 0)
  <1> SUFFICES ASSUME WInv PROVE merges <= (IF Cardinality(Br) > 0 THEN Cardinality(Br) - 1 ELSE 0) OBVIOUS
  <1>1. IsFiniteSet(reps) BY Given, FS_Subset DEF WInv, WTypeOK
  <1>2. Cardinality(reps) \in Nat /\ Cardinality(Br) \in Nat BY <1>1, Given, FS_CardinalityType
  <1>3. CASE Br = {}
    <2>1. Cardinality(Br) = 0 BY <1>3, FS_EmptySet
    <2> QED BY <1>2, <2>1 DEF WInv, WTypeOK, Apart
  <1>4. CASE Br # {}
    <2>1. reps # {} BY <1>4 DEF WInv, Apart
    <2>2. Cardinality(reps) # 0 BY <2>1, <1>1, FS_EmptySet
    <2> QED BY <1>2, <2>2 DEF WInv, WTypeOK, Apart
  <1> QED BY <1>3, <1>4

\* By division.
LEMMA Between == \A u, v, m \in Nat : u <= v /\ v <= m => ~(m < u)
  OBVIOUS
LEMMA Quot == ASSUME NEW m \in Nat, NEW s \in Nat, s >= 1, NEW k \in Nat, s * k <= m PROVE k <= m \div s
  <1> DEFINE q == m \div s
  <1>1. q \in Nat /\ m < s * (q + 1)
    <2>1. q \in Nat OBVIOUS
    <2>2. m = s * q + (m % s) /\ m % s < s OBVIOUS
    <2>3. s * (q + 1) = s * q + s BY <2>1, Step
    <2>4. s * q \in Nat /\ m % s \in Int BY <2>1
    <2> QED BY <2>1, <2>2, <2>3, <2>4
  <1> HIDE DEF q
  <1>2. ASSUME k > q PROVE FALSE
    <2>1. s * (q + 1) <= s * k BY <1>1, <1>2, More
    <2>2. s * (q + 1) \in Nat /\ s * k \in Nat BY <1>1
    <2>3. s * k <= m OBVIOUS
    <2> QED BY <2>1, <2>2, <2>3, <1>1, Between
  <1>3. k <= q BY <1>1, <1>2
  <1> QED BY <1>3 DEF q

LEMMA Bound == WInv => Linear(Cardinality(Br))
  <1> SUFFICES ASSUME WInv PROVE Linear(Cardinality(Br)) OBVIOUS
  <1> USE Given
  <1> DEFINE b == Cardinality(Br)
             m == IF b > 0 THEN b - 1 ELSE 0
             q == m \div S
  <1>1. b \in Nat /\ m \in Nat BY FS_CardinalityType
  <1>2. merges <= m BY Fewer
  <1>a. merges \in Nat /\ fast \in Nat /\ draws \in Nat /\ visits \in Nat /\ slots \in Nat BY DEF WInv, WTypeOK
  <1> HIDE DEF m
  <1>3. S * draws <= m
    <2>1. S * draws \in Nat BY <1>a
    <2> QED BY <2>1, <1>1, <1>2, <1>a DEF WInv, WTypeOK, Earned, Pos
  <1>4. draws <= q /\ q \in Nat
    <2>1. draws <= m \div S BY <1>1, <1>3, <1>a, Quot
    <2>2. m \div S \in Nat BY <1>1
    <2> QED BY <2>1, <2>2
  <1> HIDE DEF q
  <1>5. fast <= (F + 1) * q
    <2>1. fast <= (F + 1) * draws
      <3>1. (F + 1) * draws \in Nat BY <1>a
      <3> QED BY <3>1, <1>a DEF WInv, WTypeOK, Budget, Pos
    <2>2. (F + 1) * draws <= (F + 1) * q BY <1>4, <1>a, More
    <2>3. (F + 1) * draws \in Nat /\ (F + 1) * q \in Nat BY <1>4, <1>a
    <2> QED BY <2>1, <2>2, <2>3, <1>a
  <1>6. merges + fast <= m + (F + 1) * q /\ (F + 1) * q \in Nat
    <2>1. (F + 1) * q \in Nat BY <1>4
    <2> QED BY <2>1, <1>1, <1>2, <1>5, <1>a
  <1>7. D * (merges + fast) <= D * (m + (F + 1) * q)
    <2>1. merges + fast \in Nat /\ m + (F + 1) * q \in Nat BY <1>1, <1>6, <1>a
    <2> QED BY <2>1, <1>6, More
  <1>8. visits <= 1 + D * (m + (F + 1) * q)
    <2>1. D * (merges + fast) \in Nat /\ D * (m + (F + 1) * q) \in Nat BY <1>1, <1>6, <1>a
    <2> QED BY <2>1, <1>7, <1>a DEF WInv, Owed
  <1> QED BY <1>8 DEF Linear, Descents, m, q

THEOREM Ends == WSpec => [](Linear(Cardinality(Br)) /\ merges <= Cardinality(Br))
  <1>1. WSpec => []WInv BY WInitInv, WNextInv, PTL DEF WSpec
  <1>2. WInv => Linear(Cardinality(Br)) /\ merges <= Cardinality(Br)
    <2>1. Cardinality(Br) \in Nat BY Given, FS_CardinalityType
    <2> QED BY <2>1, Fewer, Bound DEF WInv, WTypeOK
  <1> QED BY <1>1, <1>2, PTL

TickOK == tick \in (-S)..F
THEOREM Ticks == WSpec => [](TickOK)
  <1>1. WInit => TickOK BY Given DEF WInit, TickOK
  <1>2. TickOK /\ [WNext]_wvars => TickOK'
    <2> SUFFICES ASSUME TickOK, [WNext]_wvars PROVE TickOK' OBVIOUS
    <2> USE Given DEF TickOK
    <2>1. CASE Look \/ Drop \/ UNCHANGED wvars BY <2>1 DEF Look, Drop, wvars
    <2>2. CASE InFast BY <2>2 DEF InFast
    <2>3. CASE IntoFast BY <2>3 DEF IntoFast
    <2>4. CASE Hit BY <2>4 DEF Hit
    <2>5. CASE InSlow BY <2>5 DEF InSlow
    <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF WNext
  <1> QED BY <1>1, <1>2, PTL DEF WSpec
==============================================================================
