-------------------------------- MODULE MCRng --------------------------------
(***************************************************************************)
(* Why reduction by the remainder of a source of W values is right: every    *)
(* end up to W gives numbers in its range, and all of them.  (Uneven, which   *)
(* nothing relies on.)  And multiply-and-shift, as the oorandom crate does.   *)
(***************************************************************************)
EXTENDS Integers
CONSTANT W
VARIABLES end, x, seen
Init == end \in 1..(W - 1) /\ x = 0 /\ seen = {}
Next == x < W /\ x' = x + 1 /\ end' = end /\ seen' = seen \cup {x % end}
Spec == Init /\ [][Next]_<<end, x, seen>>
InRange == seen \subseteq 0..(end - 1)
Covered == x = W => seen = 0..(end - 1)
MulShift == x < W => (x * end) \div W < end
MulCovers == x < end => \E y \in 0..(W - 1) : (y * end) \div W = x
=============================================================================
