------------------------------ MODULE PlaneRules ------------------------------
(* The two-dimensional wave-propagation update on arbitrary Riemann          *)
(* solutions.  A problem is a record                                         *)
(*   n: <<nx, ny>>; g = 2; ne, nw, ord, fw, lim as in KernelRules;           *)
(*   tr: transverse option 0, 1, 2 (a split step uses 0);                    *)
(*   k[i][j]: capacity of cell (ghost cells included);                       *)
(*   nu: <<dt/dx, dt/dy>> in 64ths;                                          *)
(*   x[j], y[i]: for every row j and column i the one-dimensional tables     *)
(*         (wave, s, am, ap) along it, ghost rows and columns included;      *)
(*   vm, vp: <<normal x, normal y>> of <<left, right>>: factors by which the  *)
(*         transverse solver splits left- and right-going fluctuations       *)
(*   q[m][i][j]: interior data                                               *)
EXTENDS KernelRules

(* the one-dimensional problem along row j (d = 1) or column j (d = 2)       *)
Line(p, d, j) ==
  LET t == IF d = 1 THEN p.x[j] ELSE p.y[j]
      n == p.n[d] IN
  [n |-> n, g |-> 2, ne |-> p.ne, nw |-> p.nw, ord |-> p.ord, fw |-> p.fw, lim |-> p.lim,
   d |-> [i \in 1..(n + 4) |-> p.nu[d] \div (IF d = 1 THEN p.k[i][j] ELSE p.k[j][i])],
   wave |-> t.wave, s |-> t.s, am |-> t.am, ap |-> t.ap]

(* second-order corrections along every line that matters, computed once     *)
Fluxes(p, d) ==
  [j \in 2..(p.n[3 - d] + 3) |-> LET l == Line(p, d, j) IN
     [m \in 1..p.ne |-> [i \in 2..(p.n[d] + 2) |-> IF p.ord = 1 THEN 0 ELSE Corr(l, m, i, p.nw)]]]

(* fluctuations handed to the transverse solver, at interface i of line j    *)
Left(p, F, d, j, m, i) == S * (IF d = 1 THEN p.x[j] ELSE p.y[j]).am[m][i] + (IF p.tr = 2 THEN 2 * F[d][j][m][i] ELSE 0)
Right(p, F, d, j, m, i) == S * (IF d = 1 THEN p.x[j] ELSE p.y[j]).ap[m][i] - (IF p.tr = 2 THEN 2 * F[d][j][m][i] ELSE 0)

(* transverse flux that line j (direction d) sends through the lower (e = 1) *)
(* or upper (e = 2) edge of its cell i                                       *)
Trans(p, F, d, j, m, i, e) ==
  IF p.tr = 0 THEN 0
  ELSE LET v == IF e = 1 THEN p.vm[d] ELSE p.vp[d]
           nu == p.nu[d] \div (IF d = 1 THEN p.k[i][j] ELSE p.k[j][i]) IN
       DivR(-nu * (v[1] * Left(p, F, d, j, m, i) + v[2] * Right(p, F, d, j, m, i - 1)), 128)

(* total flux, corrections and transverse parts, through the lower edge in   *)
(* direction d of cell c (c[d] counts along d)                               *)
Edge(p, F, d, m, i, j) ==      \* i: cell along d, j: the line
  F[d][j][m][i - 1] + Trans(p, F, 3 - d, i, m, j, 1) + Trans(p, F, 3 - d, i - 1, m, j, 2)

Incr(p, F, d, m, i, j) ==      \* contribution of direction d, times 64
  LET nu == p.nu[d] \div (IF d = 1 THEN p.k[i][j] ELSE p.k[j][i])
      t == IF d = 1 THEN p.x[j] ELSE p.y[j] IN
  -nu * (S * (t.ap[m][i - 1] + t.am[m][i]) + Edge(p, F, d, m, i + 1, j) - Edge(p, F, d, m, i, j))

New2(p, F, m, i, j) == S * p.q[m][i][j] + DivR(Incr(p, F, 1, m, i + 2, j + 2) + Incr(p, F, 2, m, j + 2, i + 2), 64)
AllF(p) == <<Fluxes(p, 1), Fluxes(p, 2)>>
===============================================================================
