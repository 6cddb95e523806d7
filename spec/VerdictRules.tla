---------------------------- MODULE VerdictRules ----------------------------
(* What a regression check decides.  Data are sequences of integers (in     *)
(* units of some power of two), NaN is written NaN; the weight w is the     *)
(* product of the cell widths, the tolerance m/16, both in exact units.     *)
EXTENDS Integers, Sequences
NaN == 999999
RECURSIVE Sq(_)
Sq(x) == IF x = <<>> THEN 0 ELSE Head(x) * Head(x) + Sq(Tail(x))
Diff(x, y) == [j \in 1..Len(x) |-> x[j] - y[j]]
Clean(x) == \A j \in 1..Len(x) : x[j] # NaN
(* absolute: w |x-y| < m/16 ; relative: |x-y| / |x| < m/16 (never if x is zero) *)
Accept(kind, x, y, w, m) ==
  /\ Clean(x) /\ Clean(y)
  /\ CASE kind = "abs" -> 256 * w * w * Sq(Diff(x, y)) < m * m
       [] kind = "rel" -> Sq(x) > 0 /\ 256 * Sq(Diff(x, y)) < m * m * Sq(x)
       [] OTHER -> FALSE
(* the squares of the norms reported when the data are not accepted *)
Norms(x, y, w) == << w * w * Sq(x), w * w * Sq(y), w * w * Sq(Diff(x, y)) >>

(* Two solutions are the same if they have the same time, the same number   *)
(* of patches and, patch by patch of the same index, the same level, extent,*)
(* numbers of cells and components and data.                                *)
Patch(sol, k) == CHOOSE p \in 1..Len(sol.p) : sol.p[p].idx = k
SameSol(a, b) ==
  /\ a.t = b.t /\ Len(a.p) = Len(b.p)
  /\ { a.p[j].idx : j \in 1..Len(a.p) } = { b.p[j].idx : j \in 1..Len(b.p) }
  /\ \A j \in 1..Len(a.p) : a.p[j] = b.p[Patch(b, a.p[j].idx)]

(* A session of one application: variants are run in order; outcomes are    *)
(* "same" (the verifier returns None), "differs" and "crash" (the           *)
(* application fails).  Each variant runs its own parameters once.          *)
Word(o) == CASE o = "same" -> "ok" [] o = "differs" -> "verify" [] OTHER -> "crash"
Steps(o) == IF o = "crash" THEN <<"make">> ELSE <<"make", "run", "check">>
=============================================================================
