------------------------------ MODULE PlaneModel ------------------------------
(* Pseudo-random two-dimensional problems.  Checked on the specification:    *)
(* exchange of directions, reduction to the one-dimensional update, and, for *)
(* first-order constant-coefficient advection with transverse waves, that    *)
(* the result is the product of the one-dimensional upwind steps.            *)
EXTENDS PlaneRules, TLC, Json
CONSTANTS Ns, Seeds, Lims, Emit
VARIABLES c, seed, pc
vars == <<c, seed, pc>>
H(a, b) == (((a * 1103 + b * 7919 + (a % 97) * (b % 89) * 31 + ((a * b) % 53) * 17) % 1009) % 9) - 4
Val(k) == H(seed * 37 + c.l1 * 5 + c.tr, k)
Init == /\ c \in [nx : Ns, ny : Ns, ne : {1, 2}, nw : {1, 2}, ord : {1, 2}, fw : {0, 1}, tr : {0, 1, 2}, capa : {0, 1}, l1 : Lims, l2 : Lims]
        /\ c.ne = 2 => c.nw = 2
        /\ pc = 0 /\ seed = 0
Cap(i, j) == IF c.capa = 0 THEN 1 ELSE LET v == Abs(Val(9000 + 20 * i + j)) IN IF v < 2 THEN 1 ELSE IF v < 4 THEN 2 ELSE 4
Clip(v) == IF v > 2 THEN 2 ELSE IF v < -2 THEN -2 ELSE IF c.fw = 1 /\ v = 0 THEN 1 ELSE v
Tab(d, j) ==
  LET ni == (IF d = 1 THEN c.nx ELSE c.ny) + 3
      o == 5000 * d + 300 * j IN
  [wave |-> [m \in 1..c.ne |-> [w \in 1..c.nw |-> [i \in 1..ni |-> Val(o + 100 * m + 50 * w + i)]]],
   s |-> [w \in 1..c.nw |-> [i \in 1..ni |-> Clip(Val(o + 20 * w + i + 11000))]],
   am |-> [m \in 1..c.ne |-> [i \in 1..ni |-> Val(o + 20 * m + i + 21000)]],
   ap |-> [m \in 1..c.ne |-> [i \in 1..ni |-> Val(o + 20 * m + i + 31000)]]]
Prob ==
  [n |-> <<c.nx, c.ny>>, ne |-> c.ne, nw |-> c.nw, ord |-> c.ord, fw |-> c.fw, lim |-> SubSeq(<<c.l1, c.l2>>, 1, c.nw), tr |-> c.tr,
   k |-> [i \in 1..(c.nx + 4) |-> [j \in 1..(c.ny + 4) |-> Cap(i, j)]], nu |-> <<16, IF seed % 2 = 0 THEN 8 ELSE 16>>,
   x |-> [j \in 1..(c.ny + 4) |-> Tab(1, j)], y |-> [i \in 1..(c.nx + 4) |-> Tab(2, i)],
   vm |-> <<<<-Abs(Val(1)) % 3, -Abs(Val(2)) % 3>>, <<-Abs(Val(3)) % 3, -Abs(Val(4)) % 3>>>>,
   vp |-> <<<<Abs(Val(5)) % 3, Abs(Val(6)) % 3>>, <<Abs(Val(7)) % 3, Abs(Val(8)) % 3>>>>,
   q |-> [m \in 1..c.ne |-> [i \in 1..c.nx |-> [j \in 1..c.ny |-> Val(60 + 9 * i + j + 100 * m)]]]]
Choose == pc = 0 /\ pc' = 1 /\ seed' \in Seeds /\ UNCHANGED c
Out == /\ Emit /\ pc = 1 /\ pc' = 2 /\ UNCHANGED <<c, seed>>
       /\ PrintT("BEH " \o ToJson([p |-> Prob, capa |-> c.capa]))
Next == Choose \/ Out
Spec == Init /\ [][Next]_vars

Transpose(p) ==
  [p EXCEPT !.n = <<p.n[2], p.n[1]>>, !.k = [j \in 1..(p.n[2] + 4) |-> [i \in 1..(p.n[1] + 4) |-> p.k[i][j]]],
   !.nu = <<p.nu[2], p.nu[1]>>, !.x = p.y, !.y = p.x, !.vm = <<p.vm[2], p.vm[1]>>, !.vp = <<p.vp[2], p.vp[1]>>,
   !.q = [m \in 1..p.ne |-> [j \in 1..p.n[2] |-> [i \in 1..p.n[1] |-> p.q[m][i][j]]]]]
Exchange == pc = 1 =>
  LET p == TLCEval(Prob) t == Transpose(p) F == TLCEval(AllF(p)) G == TLCEval(AllF(t)) IN
  \A m \in 1..p.ne, i \in 1..p.n[1], j \in 1..p.n[2] : Abs(New2(p, F, m, i, j) - New2(t, G, m, j, i)) <= 3

(* same tables in every row, none across, capacity constant across           *)
Reduction == pc = 1 =>
  LET p0 == TLCEval(Prob)
      zero == [wave |-> [m \in 1..p0.ne |-> [w \in 1..p0.nw |-> [i \in 1..(p0.n[2] + 3) |-> 0]]],
               s |-> [w \in 1..p0.nw |-> [i \in 1..(p0.n[2] + 3) |-> w]],
               am |-> [m \in 1..p0.ne |-> [i \in 1..(p0.n[2] + 3) |-> 0]], ap |-> [m \in 1..p0.ne |-> [i \in 1..(p0.n[2] + 3) |-> 0]]]
      p == [p0 EXCEPT !.x = [j \in DOMAIN p0.x |-> p0.x[1]], !.y = [i \in DOMAIN p0.y |-> zero],
            !.k = [i \in DOMAIN p0.k |-> [j \in DOMAIN p0.k[i] |-> p0.k[i][1]]]]
      F == TLCEval(AllF(p))
      one == [n |-> p.n[1], g |-> 2, ne |-> p.ne, nw |-> p.nw, ord |-> p.ord, fw |-> p.fw, lim |-> p.lim,
              d |-> [i \in 1..(p.n[1] + 4) |-> p.nu[1] \div p.k[i][1]], wave |-> p.x[1].wave, s |-> p.x[1].s, am |-> p.x[1].am, ap |-> p.x[1].ap] IN
  \A m \in 1..p.ne, i \in 1..p.n[1], j \in 1..p.n[2] :
     LET o == [one EXCEPT !.ne = p.ne] @@ [q |-> [mm \in 1..p.ne |-> [ii \in 1..p.n[1] |-> p.q[mm][ii][j]]]] IN
     Abs(New2(p, F, m, i, j) - New(o, m, i)) <= 3

(* advection by (a, b): product of upwind steps                              *)
Product == (pc = 1 /\ c.ord = 1 /\ c.tr > 0 /\ c.capa = 0 /\ c.ne = 1 /\ c.nw = 1) =>
  LET a == Clip(Val(71)) b == Clip(Val(72))
      p0 == TLCEval(Prob)
      nu == p0.nu
      D(i, j) == Val(80 + 13 * i + j)           \* data on all cells
      row(j) == [wave |-> <<<<[i \in 1..(c.nx + 3) |-> D(i + 1, j) - D(i, j)]>>>>, s |-> <<[i \in 1..(c.nx + 3) |-> a]>>,
                 am |-> <<[i \in 1..(c.nx + 3) |-> Min2(a, 0) * (D(i + 1, j) - D(i, j))]>>, ap |-> <<[i \in 1..(c.nx + 3) |-> Max2(a, 0) * (D(i + 1, j) - D(i, j))]>>]
      col(i) == [wave |-> <<<<[j \in 1..(c.ny + 3) |-> D(i, j + 1) - D(i, j)]>>>>, s |-> <<[j \in 1..(c.ny + 3) |-> b]>>,
                 am |-> <<[j \in 1..(c.ny + 3) |-> Min2(b, 0) * (D(i, j + 1) - D(i, j))]>>, ap |-> <<[j \in 1..(c.ny + 3) |-> Max2(b, 0) * (D(i, j + 1) - D(i, j))]>>]
      p == [p0 EXCEPT !.fw = 0, !.x = [j \in 1..(c.ny + 4) |-> row(j)], !.y = [i \in 1..(c.nx + 4) |-> col(i)],
            !.vm = <<<<Min2(b, 0), Min2(b, 0)>>, <<Min2(a, 0), Min2(a, 0)>>>>, !.vp = <<<<Max2(b, 0), Max2(b, 0)>>, <<Max2(a, 0), Max2(a, 0)>>>>,
            !.q = <<[i \in 1..c.nx |-> [j \in 1..c.ny |-> D(i + 2, j + 2)]]>>]
      F == TLCEval(AllF(p))
      ia == IF a > 0 THEN -1 ELSE 1
      ib == IF b > 0 THEN -1 ELSE 1
      A == nu[1] * Abs(a)
      Bn == nu[2] * Abs(b) IN
  \A i \in 1..c.nx, j \in 1..c.ny :
     LET e == (64 - A) * (64 - Bn) * D(i + 2, j + 2) + A * (64 - Bn) * D(i + 2 + ia, j + 2)
              + (64 - A) * Bn * D(i + 2, j + 2 + ib) + A * Bn * D(i + 2 + ia, j + 2 + ib) IN
     Abs(New2(p, F, 1, i, j) - DivR(S * e, 4096)) <= 8
===============================================================================
