------------------------------ MODULE SpaceRules ------------------------------
(* The three-dimensional wave-propagation update on arbitrary Riemann        *)
(* solutions, with single and double transverse propagation.  Cells are      *)
(* triples counted from 1 with two ghost cells on every side; the interface  *)
(* (d, c) lies between cell c and its upper neighbour in direction d.        *)
(* A problem is a record                                                     *)
(*   n: numbers of cells; ne, nw, ord, fw, lim as in KernelRules;            *)
(*   m3, m4: transverse option (its two digits);                             *)
(*   nu: step over width, in 64ths; capa: 1 with a capacity function;        *)
(*   co: coefficients with which the tape of numbers is read;                *)
(*   on: directions in which anything moves; tape: small integers            *)
(*   adv: if 1, the Riemann solutions are those of advection of the data     *)
(*        with the velocity vel                                              *)
EXTENDS KernelRules
Get(p, k) == p.tape[(k % Len(p.tape)) + 1]
At(p, c) == (p.co[1] * c[1]) + (p.co[2] * c[2]) + (p.co[3] * c[3])
Up(d, c) == [c EXCEPT ![d] = @ + 1]
Dn(d, c) == [c EXCEPT ![d] = @ - 1]
Clip3(v, fw) == IF v > 2 THEN 2 ELSE IF v < -2 THEN -2 ELSE IF fw = 1 /\ v = 0 THEN 1 ELSE v

QQ(p, m, c) == Get(p, At(p, c) + (71 * m))
Jump(p, m, d, c) == QQ(p, m, Up(d, c)) - QQ(p, m, c)
Key(p, d) == p.key[d]
Wave(p, m, w, d, c) == IF p.adv = 1 THEN (IF p.on[d] = 0 THEN 0 ELSE Jump(p, m, d, c)) ELSE p.on[d] * Get(p, At(p, c) + (17 * Key(p, d)) + (5 * m) + (3 * w))
Spd(p, w, d, c) == IF p.adv = 1 THEN p.vel[d] ELSE Clip3(Get(p, At(p, c) + (19 * Key(p, d)) + (7 * w) + 100), p.fw)
Am(p, m, d, c) == IF p.adv = 1 THEN Min2(p.vel[d], 0) * Jump(p, m, d, c) ELSE p.on[d] * Get(p, At(p, c) + (23 * Key(p, d)) + (11 * m) + 200)
Ap(p, m, d, c) == IF p.adv = 1 THEN Max2(p.vel[d], 0) * Jump(p, m, d, c) ELSE p.on[d] * Get(p, At(p, c) + (29 * Key(p, d)) + (13 * m) + 300)
Cap3(p, c) == IF p.capa = 0 THEN 1 ELSE LET v == Abs(Get(p, At(p, c) + 400)) IN IF v < 2 THEN 1 ELSE IF v < 4 THEN 2 ELSE 4
(* factor of the split, into direction d with sign e (1 down, 2 up), of      *)
(* left-(s = 1) or right-going (s = 2) fluctuations of sweeps along a; and   *)
(* of the second split of what went down (f = 1) or up (f = 2) before        *)
V(p, a, d, e, s) ==
  IF p.adv = 1 THEN (IF e = 1 THEN Min2(p.vel[d], 0) ELSE Max2(p.vel[d], 0))
  ELSE (Get(p, (37 * Key(p, a)) + (41 * Key(p, d)) + (3 * e) + (IF p.capa = 1 THEN 5 * s ELSE 0)) % 3) - 1
V2(p, a, d, e, s, f) ==
  IF p.adv = 1 THEN (IF e = 1 THEN Min2(p.vel[d], 0) ELSE Max2(p.vel[d], 0))
  ELSE (Get(p, (43 * Key(p, a)) + (47 * Key(p, d)) + (3 * e) + (5 * s) + (7 * f) + 50) % 3) - 1

Nu(p, d, c) == p.nu[d] \div Cap3(p, c)

(* the one-dimensional problem around interface (d, c): only interfaces      *)
(* c-1, c, c+1 of the line matter, numbered 1, 2, 3                          *)
Around(p, d, c) ==
  LET cc == <<Dn(d, c), c, Up(d, c)>> IN
  [ne |-> p.ne, nw |-> p.nw, fw |-> p.fw, lim |-> p.lim, d |-> [x \in 1..3 |-> Nu(p, d, cc[x])],
   wave |-> [m \in 1..p.ne |-> [w \in 1..p.nw |-> [x \in 1..3 |-> Wave(p, m, w, d, cc[x])]]],
   s |-> [w \in 1..p.nw |-> [x \in 1..3 |-> Spd(p, w, d, cc[x])]]]
CorrAt(p, m, d, c) == IF p.ord = 1 THEN 0 ELSE Corr(Around(p, d, c), m, 2, p.nw)

Cells(p) == (2..(p.n[1] + 3)) \X (2..(p.n[2] + 3)) \X (2..(p.n[3] + 3))
Ifaces(p, d) == (IF d = 1 THEN 2..(p.n[1] + 2) ELSE 2..(p.n[1] + 3)) \X (IF d = 2 THEN 2..(p.n[2] + 2) ELSE 2..(p.n[2] + 3))
                \X (IF d = 3 THEN 2..(p.n[3] + 2) ELSE 2..(p.n[3] + 3))
AllCorr(p) == [m \in 1..p.ne |-> [d \in 1..3 |-> [c \in Ifaces(p, d) |-> CorrAt(p, m, d, c)]]]

(* fluctuations leaving the faces of cell c along a: s = 1 the left-going    *)
(* one at its upper face, s = 2 the right-going one at its lower face; w:    *)
(* multiple of the correction that goes along                                *)
Fl(p, C, m, a, c, s, w) ==
  IF s = 1 THEN (S * Am(p, m, a, c)) + (w * C[m][a][c]) ELSE (S * Ap(p, m, a, Dn(a, c))) - (w * C[m][a][Dn(a, c)])
(* flux sent from cell c, swept along a, through its face of direction d     *)
One(p, C, m, a, d, c, e) ==
  IF p.m3 <= 0 THEN 0
  ELSE LET w == IF p.m3 = 2 THEN 2 ELSE 0 IN
       DivR(-Nu(p, a, c) * ((V(p, a, d, e, 1) * Fl(p, C, m, a, c, 1, w)) + (V(p, a, d, e, 2) * Fl(p, C, m, a, c, 2, w))), 128)
(* the same having gone in direction b (f = 1 down, 2 up) first              *)
Two(p, C, m, a, b, d, c, f, e) ==
  IF p.m4 = 0 THEN 0
  ELSE LET w == IF p.m4 = 2 THEN 3 ELSE 0
           x == (V2(p, a, d, e, 1, f) * V(p, a, b, f, 1) * Fl(p, C, m, a, c, 1, w)) + (V2(p, a, d, e, 2, f) * V(p, a, b, f, 2) * Fl(p, C, m, a, c, 2, w)) IN
       DivR(DivR(Nu(p, a, c) * x, 64) * p.nu[b], 384)
(* all that sweeps along a send through the lower face (direction d) of c    *)
From(p, C, m, a, d, c) ==
  LET b == 6 - a - d
      l == Dn(d, c) IN
  One(p, C, m, a, d, c, 1) + One(p, C, m, a, d, l, 2) +
  (IF p.m4 = 0 THEN 0 ELSE
     (Two(p, C, m, a, b, d, c, 2, 1) - Two(p, C, m, a, b, d, c, 1, 1))
   + (Two(p, C, m, a, b, d, l, 2, 2) - Two(p, C, m, a, b, d, l, 1, 2))
   - (Two(p, C, m, a, b, d, Dn(b, c), 2, 1) + Two(p, C, m, a, b, d, Dn(b, l), 2, 2))
   + (Two(p, C, m, a, b, d, Up(b, c), 1, 1) + Two(p, C, m, a, b, d, Up(b, l), 1, 2)))
Face(p, C, m, d, c) ==
  LET a == IF d = 1 THEN 2 ELSE 1
      b == 6 - a - d IN
  C[m][d][Dn(d, c)] + From(p, C, m, a, d, c) + From(p, C, m, b, d, c)
Incr3(p, C, m, d, c) ==
  -Nu(p, d, c) * (S * (Ap(p, m, d, Dn(d, c)) + Am(p, m, d, c)) + Face(p, C, m, d, Up(d, c)) - Face(p, C, m, d, c))
New3(p, C, m, c) == (S * QQ(p, m, c)) + DivR(Incr3(p, C, m, 1, c) + Incr3(p, C, m, 2, c) + Incr3(p, C, m, 3, c), 64)
Inner(p) == (3..(p.n[1] + 2)) \X (3..(p.n[2] + 2)) \X (3..(p.n[3] + 2))
===============================================================================
