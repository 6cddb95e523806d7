------------------------------ MODULE SpaceModel ------------------------------
(* Pseudo-random three-dimensional problems; checked on the specification:   *)
(* exchange of directions, product form for first-order advection,           *)
(* reduction to the two-dimensional update.                                  *)
EXTENDS PlaneRules, SpaceRules, TLC, Json
CONSTANTS Ns, Seeds, Lims, TapeLen, Emit
VARIABLES c, seed, pc
vars == <<c, seed, pc>>
H(a, b) == (((a * 1103 + b * 7919 + (a % 97) * (b % 89) * 31 + ((a * b) % 53) * 17) % 1009) % 9) - 4
Opts == {<<0, 0>>, <<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 1>>, <<2, 2>>}
Init == /\ c \in [nx : Ns, ny : Ns, nz : Ns, ne : {1, 2}, nw : {1, 2}, ord : {1, 2}, fw : {0, 1}, tr : Opts, capa : {0, 1}, l1 : Lims, l2 : Lims, adv : {0, 1}]
        /\ (c.ne = 2 => c.nw = 2)
        /\ (c.adv = 1 => c.nw = 1 /\ c.ne = 1 /\ c.fw = 0)
        /\ (c.nw = 1 => c.l2 = c.l1)
        /\ (c.ord = 1 => c.tr[1] < 2 /\ c.l1 = 0)
        /\ pc = 0 /\ seed = 0
Choose == pc = 0 /\ pc' = 1 /\ seed' \in Seeds /\ UNCHANGED c
Prob ==
  [n |-> <<c.nx, c.ny, c.nz>>, ne |-> c.ne, nw |-> c.nw, ord |-> c.ord, fw |-> c.fw, lim |-> SubSeq(<<c.l1, c.l2>>, 1, c.nw),
   m3 |-> c.tr[1], m4 |-> c.tr[2], nu |-> <<16, IF seed % 2 = 0 THEN 8 ELSE 16, IF seed % 3 = 0 THEN 8 ELSE 16>>, capa |-> c.capa,
   co |-> <<7, 11 + (seed % 3), 20 + (seed % 5)>>, on |-> <<1, 1, 1>>, key |-> <<1, 2, 3>>, adv |-> c.adv,
   vel |-> <<Clip3(H(seed, 5), 0), Clip3(H(seed, 7), 0), Clip3(H(seed, 9), 0)>>,
   tape |-> [k \in 1..TapeLen |-> H(seed * 31 + c.l1, k)]]
Out == /\ Emit /\ pc = 1 /\ pc' = 2 /\ UNCHANGED <<c, seed>> /\ PrintT("BEH " \o ToJson(Prob))
Next == Choose \/ Out
Spec == Init /\ [][Next]_vars

Perm(p, s) == [p EXCEPT !.n = [d \in 1..3 |-> p.n[s[d]]], !.nu = [d \in 1..3 |-> p.nu[s[d]]], !.co = [d \in 1..3 |-> p.co[s[d]]],
                        !.on = [d \in 1..3 |-> p.on[s[d]]], !.key = [d \in 1..3 |-> p.key[s[d]]], !.vel = [d \in 1..3 |-> p.vel[s[d]]]]
Exchange3 == (pc = 1 /\ seed < 3) =>
  LET p == TLCEval(Prob) C == TLCEval(AllCorr(p)) IN
  \A s \in {<<2, 1, 3>>, <<2, 3, 1>>} :
    LET t == Perm(p, s) D == TLCEval(AllCorr(t)) IN
    \A m \in 1..p.ne, x \in Inner(p) : Abs(New3(p, C, m, x) - New3(t, D, m, <<x[s[1]], x[s[2]], x[s[3]]>>)) <= 3

Product3 == (pc = 1 /\ c.adv = 1 /\ c.ord = 1 /\ c.tr = <<1, 1>> /\ c.capa = 0) =>
  LET p == TLCEval(Prob)
      C == TLCEval(AllCorr(p))
      N(d) == p.nu[d] * Abs(p.vel[d])
      o(d) == IF p.vel[d] > 0 THEN -1 ELSE 1
      U1(x) == ((64 - N(1)) * QQ(p, 1, x)) + (N(1) * QQ(p, 1, [x EXCEPT ![1] = @ + o(1)]))
      U2(x) == ((64 - N(2)) * U1(x)) + (N(2) * U1([x EXCEPT ![2] = @ + o(2)]))
      U3(x) == ((64 - N(3)) * U2(x)) + (N(3) * U2([x EXCEPT ![3] = @ + o(3)])) IN
  \A x \in Inner(p) : Abs(New3(p, C, 1, x) - DivR(315 * U3(x), 16384)) <= 12

(* nothing varies in the third direction and nothing moves in it             *)
Reduction3 == (pc = 1 /\ c.adv = 0 /\ seed < 3) =>
  LET p0 == TLCEval(Prob)
      p == [p0 EXCEPT !.co = <<p0.co[1], p0.co[2], 0>>, !.on = <<1, 1, 0>>]
      C == TLCEval(AllCorr(p))
      tab(d, j) == LET cell(i) == IF d = 1 THEN <<i, j, 3>> ELSE <<j, i, 3>>
                       ni == p.n[d] + 3 IN
        [wave |-> [m \in 1..p.ne |-> [w \in 1..p.nw |-> [i \in 1..ni |-> Wave(p, m, w, d, cell(i))]]],
         s |-> [w \in 1..p.nw |-> [i \in 1..ni |-> Spd(p, w, d, cell(i))]],
         am |-> [m \in 1..p.ne |-> [i \in 1..ni |-> Am(p, m, d, cell(i))]],
         ap |-> [m \in 1..p.ne |-> [i \in 1..ni |-> Ap(p, m, d, cell(i))]]]
      p2 == [n |-> <<p.n[1], p.n[2]>>, ne |-> p.ne, nw |-> p.nw, ord |-> p.ord, fw |-> p.fw, lim |-> p.lim, tr |-> p.m3,
             k |-> [i \in 1..(p.n[1] + 4) |-> [j \in 1..(p.n[2] + 4) |-> Cap3(p, <<i, j, 3>>)]], nu |-> <<p.nu[1], p.nu[2]>>,
             x |-> [j \in 1..(p.n[2] + 4) |-> tab(1, j)], y |-> [i \in 1..(p.n[1] + 4) |-> tab(2, i)],
             vm |-> <<<<V(p, 1, 2, 1, 1), V(p, 1, 2, 1, 2)>>, <<V(p, 2, 1, 1, 1), V(p, 2, 1, 1, 2)>>>>,
             vp |-> <<<<V(p, 1, 2, 2, 1), V(p, 1, 2, 2, 2)>>, <<V(p, 2, 1, 2, 1), V(p, 2, 1, 2, 2)>>>>,
             q |-> [m \in 1..p.ne |-> [i \in 1..p.n[1] |-> [j \in 1..p.n[2] |-> QQ(p, m, <<i + 2, j + 2, 3>>)]]]]
      F == TLCEval(AllF(p2)) IN
  \A m \in 1..p.ne, x \in Inner(p) : Abs(New3(p, C, m, x) - New2(p2, F, m, x[1] - 2, x[2] - 2)) <= 6
===============================================================================
