----------------------------- MODULE ForestProof -----------------------------
(* Proofs, checked by tlapm, about Forest.                                    *)
EXTENDS Forest, NaturalsInduction, TLAPS

CONSTANT Two              \* powers of two
ASSUME TwoDef == /\ Two \in [Nat -> Nat] /\ Two[0] = 1
                 /\ \A n \in Nat : Two[n + 1] = 2 * Two[n]
ASSUME NilDef == Nil \notin Cell

FTypeOK == /\ at \in [Key -> Cell \cup {Nil}] /\ next \in [Cell -> Cell] /\ w \in [Cell -> Nat]
           /\ rep \in [Cell -> Cell] /\ rk \in [Cell -> Nat]

\* Following links ends at the representative, and links go up.
Up == \A c \in Cell : /\ next[c] = c <=> rep[c] = c
                      /\ rep[next[c]] = rep[c]
                      /\ rep[rep[c]] = rep[c]
                      /\ next[c] # c => rk[c] < rk[next[c]]
\* The weight of a representative pays for its height.
Paid == \A c \in Cell : next[c] = c => Two[rk[c]] <= w[c]
FInv == FTypeOK /\ Up /\ Paid

LEMMA FInitInv == FInit => FInv
  BY TwoDef, NilDef DEF FInit, FInv, FTypeOK, Up, Paid

LEMMA ShortenInv == ASSUME FInv, NEW c \in Cell, Shorten(c) PROVE FInv'
  <1>1. FTypeOK' BY DEF FInv, FTypeOK, Shorten
  <1>2. next[c] \in Cell /\ next[next[c]] \in Cell BY DEF FInv, FTypeOK
  <1>3. Up'
    <2> SUFFICES ASSUME NEW d \in Cell
                 PROVE /\ next'[d] = d <=> rep'[d] = d
                       /\ rep'[next'[d]] = rep'[d]
                       /\ rep'[rep'[d]] = rep'[d]
                       /\ next'[d] # d => rk'[d] < rk'[next'[d]]
      BY DEF Up
    <2>1. rep' = rep /\ rk' = rk BY DEF Shorten
    <2>2. CASE d # c BY <2>1, <2>2 DEF FInv, FTypeOK, Up, Shorten
    <2>3. CASE d = c
      <3>1. next'[c] = next[next[c]] BY DEF Shorten, FInv, FTypeOK
      <3>2. rep[next[next[c]]] = rep[c] BY <1>2 DEF FInv, Up
      <3>3. rk[c] \in Nat /\ rk[next[c]] \in Nat /\ rk[next[next[c]]] \in Nat BY <1>2 DEF FInv, FTypeOK
      <3>4. CASE next[c] = c BY <2>1, <2>3, <3>1, <3>4 DEF FInv, Up
      <3>5. CASE next[c] # c
        <4>1. rk[c] < rk[next[c]] BY <3>5 DEF FInv, Up
        <4>2. rk[c] < rk[next[next[c]]]
          <5>1. CASE next[next[c]] = next[c] BY <4>1, <5>1
          <5>2. CASE next[next[c]] # next[c]
            <6>1. rk[next[c]] < rk[next[next[c]]] BY <1>2, <5>2 DEF FInv, Up
            <6> QED BY <3>3, <4>1, <6>1
          <5> QED BY <5>1, <5>2
        <4>3. next[next[c]] # c BY <3>3, <4>2
        <4>4. rep[c] # c BY <3>5 DEF FInv, Up
        <4>5. rep[rep[c]] = rep[c] BY DEF FInv, Up
        <4> QED BY <2>1, <2>3, <3>1, <3>2, <4>2, <4>3, <4>4, <4>5
      <3> QED BY <3>4, <3>5
    <2> QED BY <2>2, <2>3
  <1>4. Paid'
    <2> SUFFICES ASSUME NEW d \in Cell, next'[d] = d PROVE Two[rk'[d]] <= w'[d] BY DEF Paid
    <2>1. rep'[d] = d BY <1>3 DEF Up
    <2>2. next[d] = d BY <2>1 DEF FInv, Up, Shorten
    <2> QED BY <2>2 DEF FInv, Paid, Shorten
  <1> QED BY <1>1, <1>3, <1>4 DEF FInv

LEMMA TwoMono == ASSUME NEW m \in Nat, NEW n \in Nat, m <= n PROVE Two[m] <= Two[n]
  <1> DEFINE Q(k) == Two[m] <= Two[m + k]
  <1>0. Q(0) BY TwoDef
  <1>1. ASSUME NEW k \in Nat, Q(k) PROVE Q(k + 1)
    <2>1. m + k \in Nat /\ m + (k + 1) = (m + k) + 1 OBVIOUS
    <2>2. Two[(m + k) + 1] = 2 * Two[m + k] BY <2>1, TwoDef
    <2>3. Two[m + k] \in Nat /\ Two[m] \in Nat BY <2>1, TwoDef
    <2>4. 2 * Two[m + k] >= Two[m + k] BY <2>3
    <2> QED BY <1>1, <2>1, <2>2, <2>3, <2>4
  <1> HIDE DEF Q
  <1>2. \A k \in Nat : Q(k) BY <1>0, <1>1, NatInduction, Isa
  <1>3. n - m \in Nat /\ m + (n - m) = n OBVIOUS
  <1>4. Q(n - m) BY <1>2, <1>3
  <1> QED BY <1>3, <1>4 DEF Q

LEMMA MergeInv == ASSUME FInv, NEW r \in Cell, NEW s \in Cell, Merge(r, s) PROVE FInv'
  <1>1. rk[r] \in Nat /\ rk[s] \in Nat /\ w[r] \in Nat /\ w[s] \in Nat /\ rep[r] = r /\ rep[s] = s /\ r # s
    BY DEF FInv, FTypeOK, Up, Merge
  <1>2. Max(rk[r], rk[s] + 1) \in Nat BY <1>1 DEF Max
  <1>a. PICK v \in {0, w[s]} : w' = [w EXCEPT ![r] = w[r] + w[s], ![s] = v] BY DEF Merge
  <1>b. v \in Nat BY <1>1
  <1>c. w' \in [Cell -> Nat] BY <1>1, <1>a, <1>b DEF FInv, FTypeOK
  <1>d. rk' \in [Cell -> Nat] BY <1>1, <1>2 DEF FInv, FTypeOK, Merge
  <1>3. FTypeOK' BY <1>1, <1>c, <1>d DEF FInv, FTypeOK, Merge
  <1>4. \A d \in Cell : rk'[d] = IF d = r THEN Max(rk[r], rk[s] + 1) ELSE rk[d] BY <1>1 DEF Merge, FInv, FTypeOK
  <1>5. \A d \in Cell : next'[d] = IF d = s THEN r ELSE next[d] BY <1>1 DEF Merge, FInv, FTypeOK
  <1>6. \A d \in Cell : rep'[d] = IF rep[d] = s THEN r ELSE rep[d] BY DEF Merge
  <1>7. Up'
    <2> SUFFICES ASSUME NEW d \in Cell
                 PROVE /\ next'[d] = d <=> rep'[d] = d
                       /\ rep'[next'[d]] = rep'[d]
                       /\ rep'[rep'[d]] = rep'[d]
                       /\ next'[d] # d => rk'[d] < rk'[next'[d]]
      BY DEF Up
    <2>1. next[d] \in Cell /\ rep[d] \in Cell /\ rk[d] \in Nat /\ rk[next[d]] \in Nat BY DEF FInv, FTypeOK
    <2>2. next[d] = d <=> rep[d] = d BY DEF FInv, Up
    <2>3. rep[next[d]] = rep[d] /\ rep[rep[d]] = rep[d] BY DEF FInv, Up
    <2>4. next'[d] = d <=> rep'[d] = d BY <1>1, <1>5, <1>6, <2>1, <2>2, <2>3
    <2>5. rep'[next'[d]] = rep'[d] BY <1>1, <1>5, <1>6, <2>1, <2>3
    <2>6. rep'[rep'[d]] = rep'[d] BY <1>1, <1>6, <2>1, <2>3
    <2>7. ASSUME next'[d] # d PROVE rk'[d] < rk'[next'[d]]
      <3>1. CASE d = s
        <4>1. rk'[d] = rk[s] /\ rk'[next'[d]] = Max(rk[r], rk[s] + 1) BY <1>1, <1>4, <1>5, <3>1
        <4> QED BY <1>1, <4>1 DEF Max
      <3>2. CASE d # s
        <4>1. next'[d] = next[d] /\ next[d] # d BY <1>5, <2>7, <3>2
        <4>2. d # r BY <4>1 DEF Merge
        <4>3. rk'[d] = rk[d] /\ rk[d] < rk[next[d]] BY <1>4, <4>1, <4>2 DEF FInv, Up
        <4>4. rk'[next[d]] >= rk[next[d]] BY <1>1, <1>4, <2>1 DEF Max
        <4>5. rk'[next[d]] \in Nat BY <1>3, <2>1 DEF FTypeOK
        <4> QED BY <2>1, <4>1, <4>3, <4>4, <4>5
      <3> QED BY <3>1, <3>2
    <2> QED BY <2>4, <2>5, <2>6, <2>7
  <1>8. Paid'
    <2> SUFFICES ASSUME NEW d \in Cell, next'[d] = d PROVE Two[rk'[d]] <= w'[d] BY DEF Paid
    <2>1. d # s /\ next[d] = d BY <1>1, <1>5
    <2>2. CASE d # r
      <3>1. w'[d] = w[d] /\ rk'[d] = rk[d] BY <1>4, <2>2 DEF Merge, FInv, FTypeOK
      <3> QED BY <2>1, <3>1 DEF FInv, Paid
    <2>3. CASE d = r
      <3>1. w'[d] = w[r] + w[s] BY <2>3 DEF Merge, FInv, FTypeOK
      <3>2. rk'[d] = Max(rk[r], rk[s] + 1) BY <1>4, <2>3
      <3>3. Two[rk[r]] <= w[r] /\ Two[rk[s]] <= w[s] /\ w[s] <= w[r] BY <1>1 DEF FInv, Paid, Merge
      <3>4. Two[rk[r]] \in Nat /\ Two[rk[s]] \in Nat /\ Two[rk[s] + 1] = 2 * Two[rk[s]] BY <1>1, TwoDef
      <3>5. CASE rk[r] >= rk[s] + 1
        <4>1. rk'[d] = rk[r] BY <3>2, <3>5 DEF Max
        <4> QED BY <1>1, <3>1, <3>3, <3>4, <4>1
      <3>6. CASE ~(rk[r] >= rk[s] + 1)
        <4>1. rk'[d] = rk[s] + 1 BY <3>2, <3>6 DEF Max
        <4>2. 2 * Two[rk[s]] <= w[r] + w[s] BY <1>1, <3>3, <3>4
        <4> QED BY <3>1, <3>4, <4>1, <4>2
      <3> QED BY <3>5, <3>6
    <2> QED BY <2>2, <2>3
  <1> QED BY <1>3, <1>7, <1>8 DEF FInv

LEMMA FNextInv == FInv /\ [FNext]_fvars => FInv'
  <1> SUFFICES ASSUME FInv, [FNext]_fvars PROVE FInv' OBVIOUS
  <1>1. CASE UNCHANGED fvars BY <1>1 DEF fvars, FInv, FTypeOK, Up, Paid
  <1>2. ASSUME NEW a \in Key, NEW b \in Key, NEW c \in Cell, NoneSeen(a, b, c) PROVE FInv'
    BY <1>2 DEF NoneSeen, FInv, FTypeOK, Up, Paid
  <1>3. ASSUME NEW s \in Key, NEW u \in Key, NEW r \in Cell, SomeSeen(s, u, r) PROVE FInv'
    BY <1>3 DEF SomeSeen, FInv, FTypeOK, Up, Paid
  <1> QED BY <1>1, <1>2, <1>3, ShortenInv, MergeInv DEF FNext

THEOREM Invariant == FSpec => []FInv
  BY FInitInv, FNextInv, PTL DEF FSpec

(* A chain of n links ends no lower than n, so it is no longer than the       *)
(* logarithm of the weight.                                                  *)
IsChain(p, n) == /\ p \in [0..n -> Cell]
                 /\ \A i \in 0..(n - 1) : next[p[i]] = p[i + 1] /\ p[i + 1] # p[i]

LEMMA ChainClimbs ==
  ASSUME FInv, NEW n \in Nat, NEW p, IsChain(p, n) PROVE rk[p[n]] >= n
  <1> DEFINE Q(i) == i <= n => rk[p[i]] >= i
  <1>0. \A i \in 0..n : rk[p[i]] \in Nat BY DEF IsChain, FInv, FTypeOK
  <1>1. Q(0) BY <1>0
  <1>2. ASSUME NEW i \in Nat, Q(i) PROVE Q(i + 1)
    <2> SUFFICES ASSUME i + 1 <= n PROVE rk[p[i + 1]] >= i + 1 OBVIOUS
    <2>1. i \in 0..(n - 1) /\ i \in 0..n /\ i + 1 \in 0..n OBVIOUS
    <2>2. p[i] \in Cell /\ next[p[i]] = p[i + 1] /\ next[p[i]] # p[i] BY <2>1 DEF IsChain
    <2>3. rk[p[i]] < rk[p[i + 1]] BY <2>2 DEF FInv, Up
    <2>4. rk[p[i]] >= i BY <1>2, <2>1
    <2> QED BY <1>0, <2>1, <2>3, <2>4
  <1> HIDE DEF Q
  <1>3. \A i \in Nat : Q(i) BY <1>1, <1>2, NatInduction, Isa
  <1>4. Q(n) BY <1>3
  <1> QED BY <1>4 DEF Q

THEOREM Logarithmic ==
  ASSUME FInv, NEW n \in Nat, NEW p, IsChain(p, n), next[p[n]] = p[n]
  PROVE  Two[n] <= w[p[n]]
  <1>1. p[n] \in Cell BY DEF IsChain
  <1>2. rk[p[n]] \in Nat /\ w[p[n]] \in Nat BY <1>1 DEF FInv, FTypeOK
  <1>3. Two[n] <= Two[rk[p[n]]] BY <1>2, ChainClimbs, TwoMono
  <1>4. Two[rk[p[n]]] <= w[p[n]] BY <1>1 DEF FInv, Paid
  <1>5. Two[n] \in Nat /\ Two[rk[p[n]]] \in Nat BY <1>2, TwoDef
  <1> QED BY <1>2, <1>3, <1>4, <1>5

(* Following a chain ends at the representative that the proof speaks of.     *)
THEOREM ChainEnds ==
  ASSUME FInv, NEW n \in Nat, NEW p, IsChain(p, n), next[p[n]] = p[n]
  PROVE  p[n] = rep[p[0]]
  <1> DEFINE Q(i) == i <= n => rep[p[i]] = rep[p[0]]
  <1>1. Q(0) OBVIOUS
  <1>2. ASSUME NEW i \in Nat, Q(i) PROVE Q(i + 1)
    <2> SUFFICES ASSUME i + 1 <= n PROVE rep[p[i + 1]] = rep[p[0]] OBVIOUS
    <2>1. i \in 0..(n - 1) /\ i \in 0..n OBVIOUS
    <2>2. p[i] \in Cell /\ next[p[i]] = p[i + 1] BY <2>1 DEF IsChain
    <2> QED BY <1>2, <2>1, <2>2 DEF FInv, Up
  <1> HIDE DEF Q
  <1>3. \A i \in Nat : Q(i) BY <1>1, <1>2, NatInduction, Isa
  <1>4. rep[p[n]] = rep[p[0]] BY <1>3 DEF Q
  <1>5. p[n] \in Cell BY DEF IsChain
  <1>6. rep[p[n]] = p[n] BY <1>5 DEF FInv, Up
  <1> QED BY <1>4, <1>6

(* Each write changes what is known exactly as the pair demands.              *)
THEOREM NoneSeenKnows ==
  ASSUME FInv, NEW a \in Key, NEW b \in Key, NEW c \in Cell, NoneSeen(a, b, c),
         NEW x \in Key, NEW y \in Key, x # y
  PROVE  Known(x, y)' <=> (Known(x, y) \/ ({x, y} \subseteq {a, b}))
  BY NilDef DEF NoneSeen, Fresh, Known, FInv, FTypeOK, Up

THEOREM SomeSeenKnows ==
  ASSUME FInv, NEW s \in Key, NEW u \in Key, NEW r \in Cell, SomeSeen(s, u, r), NEW x \in Key, NEW y \in Key, x # y
  PROVE  Known(x, y)' <=> (Known(x, y) \/ (x = u /\ Known(s, y)) \/ (y = u /\ Known(x, s)))
  BY NilDef DEF SomeSeen, Known, FInv, FTypeOK, Up

THEOREM ShortenKnows ==
  ASSUME FInv, NEW c \in Cell, Shorten(c), NEW x \in Key, NEW y \in Key
  PROVE  Known(x, y)' <=> Known(x, y)
  BY DEF Shorten, Known

THEOREM MergeKnows ==
  ASSUME FInv, NEW a \in Key, NEW b \in Key, at[a] # Nil, at[b] # Nil,
         NEW r \in Cell, NEW s \in Cell, Merge(r, s), {rep[at[a]], rep[at[b]]} = {r, s},
         NEW x \in Key, NEW y \in Key
  PROVE  Known(x, y)' <=> (Known(x, y) \/ (Known(x, a) /\ Known(b, y)) \/ (Known(x, b) /\ Known(a, y)))
  <1>1. at[x] # Nil => at[x] \in Cell BY DEF FInv, FTypeOK
  <1>2. at[y] # Nil => at[y] \in Cell BY DEF FInv, FTypeOK
  <1>3. at' = at /\ \A c \in Cell : rep'[c] = IF rep[c] = s THEN r ELSE rep[c] BY DEF Merge
  <1>4. (rep[at[a]] = r /\ rep[at[b]] = s) \/ (rep[at[a]] = s /\ rep[at[b]] = r) OBVIOUS
  <1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Known
==============================================================================
