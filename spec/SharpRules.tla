------------------------------ MODULE SharpRules ------------------------------
(* The semi-discrete right-hand side of the SharpClaw solvers: values are    *)
(* reconstructed at both edges of every cell, Riemann problems are solved at *)
(* the edges and across each cell, and the fluctuations are summed, in every *)
(* direction.  Fixed point, R units to one.  A problem is a record           *)
(*   n: cells <<nx, ny, nz>> (1 for a direction that is not there), nd;      *)
(*   ix[d]: one over the cell width; bc[d]: "p" periodic or "e" extrapolated;*)
(*   ne: equations; q[m]: integer data, first index fastest;                 *)
(*   aux[a]: integer coefficients; the Riemann solver used with it has       *)
(*       left-going part  aux[2d-1](left cell)  * m * jump and               *)
(*       right-going part aux[2d](right cell) * m * jump in direction d;     *)
(*   cap: cell capacities (or <<>>), in halves;                              *)
(*   scheme: "first", "tvd" or "weno5"; lim[m]: limiter.                     *)
EXTENDS Integers, Sequences
R == 27720
WS == 40000      \* weights
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Min3(a, b, c) == Min2(a, Min2(b, c))
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
DivR(a, b) == (2 * a + b) \div (2 * b)

(* ---- reconstruction: values at the edges from data around a cell -------- *)
(* limited slope times R from the jumps on the left (a) and on the right (b) *)
Slope(l, a, b) ==
  IF a * b <= 0 THEN 0
  ELSE LET x == Abs(a) y == Abs(b) IN
       Sgn(a) * (CASE l = 1 -> R * Min2(x, y)
                   [] l = 2 -> R * Max2(Min2(x, 2 * y), Min2(2 * x, y))
                   [] l = 3 -> DivR(2 * R * x * y, x + y)
                   [] l = 4 -> Min3(2 * R * x, 2 * R * y, (R * (x + y)) \div 2))
(* the candidate values of WENO5 at the edge beyond c (times 6), their       *)
(* smoothness indicators and optimal weights (tenths)                        *)
Cand(a, b, c, d, e) == << (2 * a) - (7 * b) + (11 * c), (5 * c) - b + (2 * d), (2 * c) + (5 * d) - e >>
Beta(a, b, c, d, e) == << (13 * (a - (2 * b) + c) * (a - (2 * b) + c)) + (3 * (a - (4 * b) + (3 * c)) * (a - (4 * b) + (3 * c))),
                          (13 * (b - (2 * c) + d) * (b - (2 * c) + d)) + (3 * (b - d) * (b - d)),
                          (13 * (c - (2 * d) + e) * (c - (2 * d) + e)) + (3 * ((3 * c) - (4 * d) + e) * ((3 * c) - (4 * d) + e)) >>
Ideal == <<1, 6, 3>>
Frac(u, T) == (200 * ((200 * u) \div T)) + ((200 * ((200 * u) % T)) \div T)
Weights(bt) ==
  LET bm == Min3(bt[1], bt[2], bt[3])
      r(x) == IF bm = 0 THEN (IF bt[x] = 0 THEN 30000 ELSE 0) ELSE (30000 * bm) \div bt[x]
      u == [x \in 1..3 |-> Ideal[x] * ((r(x) * r(x)) \div 1000)]
      T == u[1] + u[2] + u[3] IN
  [x \in 1..3 |-> Frac(u[x], T)]
Weno(a, b, c, d, e) ==
  LET p == Cand(a, b, c, d, e) w == Weights(Beta(a, b, c, d, e)) IN
  LET x == (w[1] * p[1]) + (w[2] * p[2]) + (w[3] * p[3]) IN DivR(231 * x, 2000)
(* v: data along a line as a function; edges of cell i, lower and upper      *)
Edges(scheme, l, v(_), i) ==
  CASE scheme = "first" -> << R * v(i), R * v(i) >>
    [] scheme = "tvd" -> LET s == Slope(l, v(i) - v(i - 1), v(i + 1) - v(i)) IN
                         << (R * v(i)) - DivR(s, 2), (R * v(i)) + DivR(s, 2) >>
    [] scheme = "weno5" -> << Weno(v(i + 2), v(i + 1), v(i), v(i - 1), v(i - 2)), Weno(v(i - 2), v(i - 1), v(i), v(i + 1), v(i + 2)) >>

(* ---- the rate ----------------------------------------------------------- *)
Wrap(p, d, i) == IF p.bc[d] = "p" THEN ((i - 1) % p.n[d]) + 1 ELSE Max2(1, Min2(p.n[d], i))
Flat(p, c) == c[1] + (p.n[1] * ((c[2] - 1) + (p.n[2] * (c[3] - 1))))
Mv(p, d, c, i) == [c EXCEPT ![d] = Wrap(p, d, i)]
(* contribution of direction d to cell c, component m, times R and capacity  *)
Along(p, d, m, c) ==
  LET v(i) == p.q[m][Flat(p, Mv(p, d, c, i))]
      E(i) == Edges(p.scheme, p.lim[m], v, i)
      i0 == c[d]
      lo == E(i0 - 1) me == E(i0) hi == E(i0 + 1)
      al == p.aux[(2 * d) - 1][Flat(p, c)]
      ar == p.aux[2 * d][Flat(p, c)] IN
  -(p.ix[d] * m * ((ar * (me[1] - lo[2])) + (al * (hi[1] - me[2])) + ((al + ar) * (me[2] - me[1]))))
RECURSIVE SumD(_,_,_,_)
SumD(p, d, m, c) == IF d = 0 THEN 0 ELSE Along(p, d, m, c) + SumD(p, d - 1, m, c)
Rate(p, m, c) == LET r == SumD(p, p.nd, m, c) IN IF p.cap = <<>> THEN r ELSE DivR(2 * r, p.cap[Flat(p, c)])
Cells(p) == (1..p.n[1]) \X (1..p.n[2]) \X (1..p.n[3])

(* Courant number (times 64) with speeds aux[2d](right cell) and             *)
(* -aux[2d-1](left cell); ghost cells adjoining the interior may count too   *)
(* the step is dt = dn/64                                                    *)
Cap2(p, c) == IF p.cap = <<>> THEN 2 ELSE p.cap[Flat(p, c)]
SetMax(X) == CHOOSE x \in X : \A y \in X : y <= x
AtFace(p, d, c, l, r, own) ==       \* l, r: cells left and right of an edge; own: those whose width counts
  LET s1 == p.aux[2 * d][Flat(p, r)] s2 == -p.aux[(2 * d) - 1][Flat(p, l)]
      up(s) == IF s > 0 THEN (IF r \in own THEN DivR(128 * p.ix[d] * s, Cap2(p, r)) ELSE 0)
               ELSE (IF l \in own THEN DivR(-(128 * p.ix[d] * s), Cap2(p, l)) ELSE 0) IN
  Max2(up(s1), up(s2))
Faces(p, d) == { <<c, i>> \in Cells(p) \X (0..p.n[d]) : c[d] = 1 }
CfLow(p) == SetMax({0} \cup UNION { { LET l == Mv(p, d, f[1], f[2]) r == Mv(p, d, f[1], f[2] + 1) IN
                AtFace(p, d, f[1], l, r, (IF f[2] > 0 THEN {l} ELSE {}) \cup (IF f[2] < p.n[d] THEN {r} ELSE {})) : f \in Faces(p, d) } : d \in 1..p.nd })
CfHigh(p) == SetMax({0} \cup UNION { { LET l == Mv(p, d, f[1], f[2]) r == Mv(p, d, f[1], f[2] + 1) IN AtFace(p, d, f[1], l, r, {l, r}) : f \in Faces(p, d) } : d \in 1..p.nd })

(* ---- WENO of order 2k-1: optimal weights and exactness ------------------ *)
RECURSIVE Bin(_,_)
Bin(i, m) == IF m = 0 THEN 1 ELSE (Bin(i, m - 1) * (i - m + 1)) \div m      \* also for negative i
Unit(k) == 2520 * Bin((2 * k) - 1, k)
(* weights of the derivative at node 0 from nodes -k..k-1, times Unit        *)
NodeW(k, m) == (IF m % 2 = 0 THEN -1 ELSE 1) * (IF m < 0 THEN -1 ELSE 1) * (2520 \div Abs(m)) * Bin((2 * k) - 1, k + m)
RECURSIVE SumW(_,_,_)
SumW(k, a, b) == IF a > b THEN 0 ELSE NodeW(k, a) + SumW(k, a + 1, b)
(* weight, at the upper edge of cell 0, of cell j in -(k-1)..(k-1)           *)
CellW(k, j) == IF j >= 1 THEN SumW(k, j, k - 1) ELSE -SumW(k, -k, j - 1)
(* data Bin(i, m) are cell averages of a polynomial of degree m whose values *)
(* at the edges of cell 0 differ by PointDiff(m), times 840                  *)
PointDiff(m) == IF m = 0 THEN 0 ELSE (IF m % 2 = 1 THEN 1 ELSE -1) * (840 \div m)
===============================================================================
