----------------------------- MODULE ConsRules -----------------------------
(* Conservation form on a ring of cells, and the limited upwind step for    *)
(* scalar advection with any limiter values in the TVD region.              *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumTo(_,_)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
Nxt(N, i) == IF i = N THEN 1 ELSE i + 1
Prv(N, i) == IF i = 1 THEN N ELSE i - 1
TV(q) == SumTo([i \in 1..Len(q) |-> Abs(q[Nxt(Len(q), i)] - q[i])], Len(q))
RECURSIVE MaxTo(_,_), MinTo(_,_)
MaxTo(f, n) == IF n = 1 THEN f[1] ELSE Max2(f[n], MaxTo(f, n - 1))
MinTo(f, n) == IF n = 1 THEN f[1] ELSE Min2(f[n], MinTo(f, n - 1))

(* Interface j lies between cells j and j+1 of the ring.  A step subtracts, *)
(* per unit of capacity, what its interfaces send into the cell: ap of the  *)
(* lower and am of the upper one plus the difference of correction fluxes c.*)
(* Weighted amount that leaves cell i:                                      *)
Out(N, am, ap, c, i) == ap[Prv(N, i)] + am[i] + c[i] - c[Prv(N, i)]

(* The limited upwind step for speed 1 and Courant number c/8 with limiter  *)
(* values k[j]/2, in units of 1/256.                                        *)
Jump(q, j) == q[Nxt(Len(q), j)] - q[j]
Corr(q, c, k, j) == c * (8 - c) * k[j] * Jump(q, j)
Upwind(q, c, k, i) ==
  LET N == Len(q) IN 256 * q[i] - 32 * c * Jump(q, Prv(N, i)) - (Corr(q, c, k, i) - Corr(q, c, k, Prv(N, i)))
(* k/2 lies in the TVD region for the ratio of the upwind jump to this one  *)
InRegion(q, k, j) ==
  LET w == Jump(q, j) u == Jump(q, Prv(Len(q), j)) IN
  k[j] \in 0..4 /\ (IF w = 0 \/ u * w <= 0 THEN k[j] = 0 ELSE k[j] * Abs(w) <= 4 * Abs(u))
=============================================================================
