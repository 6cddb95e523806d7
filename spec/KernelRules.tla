----------------------------- MODULE KernelRules -----------------------------
(* The limited wave-propagation update in one dimension, in fixed-point     *)
(* arithmetic with S units to one.  A problem is a record                   *)
(*   n, g: interior and ghost cells; cells 1..n+2g, interface j lies        *)
(*         between cells j and j+1;                                         *)
(*   ne, nw: equations and waves; ord: 1 or 2; fw: 1 for f-waves;           *)
(*   lim[w]: limiter of family w;                                           *)
(*   d[i]: step length over (width times capacity) of cell i, in 64ths;     *)
(*   wave[m][w][j], s[w][j], am[m][j], ap[m][j]: Riemann solution (integers)*)
(*   q[m][i]: interior data (integers), i in 1..n                           *)
EXTENDS Integers, Sequences
CONSTANT S

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
DivR(a, b) == (2 * a + b) \div (2 * b)

(* limiter functions of the ratio num/den (den > 0) at Courant number c/64  *)
Phi(l, num, den, c) ==
  LET R(k) == DivR(k * S * num, den) IN
  CASE l = 0 -> S
    [] l = 1 -> IF num <= 0 THEN 0 ELSE Min2(S, R(1))
    [] l = 2 -> IF num <= 0 THEN 0 ELSE Max2(Min2(S, R(2)), Min2(2 * S, R(1)))
    [] l = 3 -> IF num <= 0 THEN 0 ELSE DivR(2 * S * num, num + den)
    [] l = 4 -> IF num <= 0 THEN 0 ELSE Min2(2 * S, Min2(R(2), DivR(S * (num + den), 2 * den)))
    [] l = 5 -> R(1)
    [] l = 6 -> DivR(S * (num + den), 2 * den)
    [] l = 7 -> DivR(S * (num * num + num * den), num * num + den * den)
    [] l = 10 -> S + DivR(DivR((64 + c) * S, 192) * (num - den), den)
    [] OTHER -> -1
HasFormula(l) == l \in 0..7 \cup {10}
IsTVD(l) == l \in 1..4

RECURSIVE Dot(_,_,_,_,_)
Dot(p, w, j, k, m) == IF m = 0 THEN 0 ELSE p.wave[m][w][j] * p.wave[m][w][k] + Dot(p, w, j, k, m - 1)
Norm2(p, w, j) == Dot(p, w, j, j, p.ne)
Upw(p, w, j) == IF p.s[w][j] > 0 THEN j - 1 ELSE j + 1
Lim(p, w, j) ==
  IF p.lim[w] = 0 \/ Norm2(p, w, j) = 0 THEN S
  ELSE Phi(p.lim[w], Dot(p, w, j, Upw(p, w, j), p.ne), Norm2(p, w, j), Abs(p.s[w][j]) * p.d[j])

(* correction flux at interface j, component m, scaled by S                 *)
RECURSIVE Corr(_,_,_,_)
Corr(p, m, j, w) ==
  IF w = 0 THEN 0
  ELSE LET sj == p.s[w][j]
           c == (IF p.fw = 1 THEN Sgn(sj) ELSE Abs(sj)) * (128 - Abs(sj) * (p.d[j] + p.d[j + 1])) * p.wave[m][w][j] IN
       (IF c = 0 THEN 0 ELSE DivR(c * Lim(p, w, j), 256)) + Corr(p, m, j, w - 1)

(* new value of component m in interior cell i, scaled by S                 *)
New(p, m, i) ==
  LET c == i + p.g
      godunov == S * p.q[m][i] - DivR(p.d[c] * S * (p.ap[m][c - 1] + p.am[m][c]), 64) IN
  IF p.ord = 1 THEN godunov
  ELSE godunov - DivR(p.d[c] * (Corr(p, m, c, p.nw) - Corr(p, m, c - 1, p.nw)), 64)

(* Courant number in 64ths                                                  *)
RECURSIVE SetMax(_)
SetMax(X) == LET x == CHOOSE y \in X : TRUE IN
             IF X = {x} THEN x ELSE Max2(x, SetMax(X \ {x}))
Courant(p) == SetMax({0} \cup { Max2(p.d[j + 1] * p.s[w][j], -p.d[j] * p.s[w][j]) : j \in p.g..(p.g + p.n), w \in 1..p.nw })
==============================================================================
