----------------------------- MODULE GhostRules -----------------------------
(* What every cell of an array with ghost cells must hold.  An array has    *)
(* components 1..., cells indexed by tuples (1-based, ghost cells           *)
(* included); a fill is described by a record                               *)
(*   n: interior cells per dimension, g: ghost cells per side,              *)
(*   bl, bu: kind of condition per dimension (extrap periodic wall custom), *)
(*   al, au: side is a physical boundary (1/0),                             *)
(*   rf: component negated by a wall per dimension (0: none)                *)
EXTENDS Integers, Sequences

Lower(f, d, x) == x <= f.g
Upper(f, d, x) == x > f.g + f.n[d]
Ghostly(f, d, x) == Lower(f, d, x) \/ Upper(f, d, x)

(* a periodic side is filled only if this patch owns both ends              *)
Filled(f, d, low) ==
  /\ (IF low THEN f.al[d] ELSE f.au[d]) = 1
  /\ (IF low THEN f.bl[d] ELSE f.bu[d]) = "periodic" => (IF low THEN f.au[d] ELSE f.al[d]) = 1

(* interior cell whose image the ghost cell x holds                         *)
Source(f, d, kind, x) ==
  CASE kind = "extrap"   -> IF x <= f.g THEN f.g + 1 ELSE f.g + f.n[d]
    [] kind = "periodic" -> f.g + 1 + ((x - f.g - 1 + 8 * f.n[d]) % f.n[d])
    [] kind = "wall"     -> IF x <= f.g THEN 2 * f.g + 1 - x ELSE 2 * (f.g + f.n[d]) + 1 - x
    [] OTHER             -> x

(* value at idx after the sides of dimensions 1..d have been filled.        *)
(* In(m, idx): interior value; Old(m, idx): content of a ghost cell before; *)
(* Mark(d, low, m, x): what the user's function writes.                     *)
RECURSIVE Img(_,_,_,_,_,_,_)
Img(f, In(_,_), Old(_,_), Mark(_,_,_,_), m, idx, d) ==
  IF d = 0 THEN IF \E k \in 1..Len(idx) : Ghostly(f, k, idx[k]) THEN Old(m, idx) ELSE In(m, idx)
  ELSE LET x == idx[d]
           low == Lower(f, d, x)
           kind == IF low THEN f.bl[d] ELSE f.bu[d] IN
       IF ~Ghostly(f, d, x) \/ ~Filled(f, d, low) THEN Img(f, In, Old, Mark, m, idx, d - 1)
       ELSE IF kind = "custom" THEN Mark(d, low, m, x)
       ELSE (IF kind = "wall" /\ f.rf[d] = m THEN -1 ELSE 1)
            * Img(f, In, Old, Mark, m, [idx EXCEPT ![d] = Source(f, d, kind, x)], d - 1)
=============================================================================
