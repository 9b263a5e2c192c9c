------------------------------- MODULE Forest --------------------------------
(***************************************************************************)
(* The cells of the slow-phase memory, write by write: keys (identities of   *)
(* nodes) own cells; a cell links to another one or is a representative      *)
(* (links to itself) with a weight.  Chains may be shortened at any time,    *)
(* step by step; of two representatives the lighter comes to link to the     *)
(* heavier.  Any number of keys and cells, any history.                      *)
(*                                                                          *)
(* ForestProof proves that this is a sound and logarithmic representation of *)
(* classes; ClassSteps checks that the algorithm makes only such writes.               *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS Key, Cell, Nil

VARIABLES
    at,      \* Key -> Cell, or Nil when never seen
    next,    \* Cell -> Cell
    w,       \* weights
    rep,     \* only for the proof: the representative of a cell
    rk       \* only for the proof: more than that of any cell that links here

fvars == <<at, next, w, rep, rk>>

FInit == /\ at = [k \in Key |-> Nil]
         /\ next = [c \in Cell |-> c] /\ w = [c \in Cell |-> 1]
         /\ rep = [c \in Cell |-> c] /\ rk = [c \in Cell |-> 0]

Fresh(c) == /\ \A k \in Key : at[k] # c
            /\ \A d \in Cell : next[d] = c => d = c
            /\ \A d \in Cell : rep[d] = c => d = c
            /\ next[c] = c /\ w[c] = 1 /\ rk[c] = 0

NoneSeen(a, b, c) ==
    /\ at[a] = Nil /\ at[b] = Nil /\ Fresh(c)
    /\ at' = [at EXCEPT ![a] = c, ![b] = c]
    /\ UNCHANGED <<next, w, rep, rk>>

SomeSeen(s, u, r) ==
    /\ at[s] # Nil /\ at[u] = Nil
    /\ next[r] = r /\ rep[at[s]] = r       \* where following the chain ends (ChainEnds)
    /\ at' = [at EXCEPT ![u] = r]
    /\ UNCHANGED <<next, w, rep, rk>>

Shorten(c) ==
    /\ next' = [next EXCEPT ![c] = next[next[c]]]
    /\ UNCHANGED <<at, w, rep, rk>>

Max(x, y) == IF x >= y THEN x ELSE y
Merge(r, s) ==
    /\ next[r] = r /\ next[s] = s /\ r # s /\ w[r] >= w[s]
    /\ next' = [next EXCEPT ![s] = r]
    /\ \E v \in {0, w[s]} : w' = [w EXCEPT ![r] = w[r] + w[s], ![s] = v]
    /\ rep' = [c \in Cell |-> IF rep[c] = s THEN r ELSE rep[c]]
    /\ rk' = [rk EXCEPT ![r] = Max(rk[r], rk[s] + 1)]
    /\ at' = at

FNext == \/ \E a, b \in Key, c \in Cell : NoneSeen(a, b, c)
         \/ \E s, u \in Key, r \in Cell : SomeSeen(s, u, r)
         \/ \E c \in Cell : Shorten(c)
         \/ \E r, s \in Cell : Merge(r, s)
FSpec == FInit /\ [][FNext]_fvars

\* What the cells say: two keys are known to be equivalent.
Known(x, y) == at[x] # Nil /\ at[y] # Nil /\ rep[at[x]] = rep[at[y]]
==============================================================================
