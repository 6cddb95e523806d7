------------------------------ MODULE KernelGen ------------------------------
(* Generates arbitrary Riemann solutions, limiter choices, capacities and   *)
(* data, number by number, and takes one step of the specification.         *)
EXTENDS KernelRules, TLC, Json
CONSTANTS Ns, Vals, LimsG
VARIABLES c, tape, pc
vars == <<c, tape, pc>>
NI(x) == x.n + 3
Need(x) == x.ne * x.n + x.nw * NI(x) + x.ne * x.nw * NI(x) + 2 * x.ne * NI(x) + (IF x.capa = 1 THEN x.n + 4 ELSE 0)

Init == /\ c \in [n : Ns, ne : {1, 2}, nw : {1, 2}, ord : {1, 2}, fw : {0, 1}, capa : {0, 1}, nu : {16, 32}, l1 : LimsG, l2 : LimsG]
        /\ tape = <<>> /\ pc = 0
Draw == /\ pc = 0 /\ Len(tape) < Need(c) /\ \E v \in (-Vals)..Vals : tape' = Append(tape, v)
        /\ UNCHANGED <<c, pc>>

(* the problem the tape describes                                           *)
Prob ==
  LET ni == NI(c)
      oS == c.ne * c.n
      oW == oS + c.nw * ni
      oA == oW + c.ne * c.nw * ni
      oP == oA + c.ne * ni
      oC == oP + c.ne * ni
      Sp(w, j) == LET v == tape[oS + (w - 1) * ni + j] IN IF v > 3 THEN 3 ELSE IF v < -3 THEN -3 ELSE IF c.fw = 1 /\ v = 0 THEN 1 ELSE v
      Cap(i) == IF c.capa = 0 THEN 1 ELSE LET v == Abs(tape[oC + i]) IN IF v = 0 THEN 1 ELSE IF v < 3 THEN 2 ELSE 4 IN
  [n |-> c.n, g |-> 2, ne |-> c.ne, nw |-> c.nw, ord |-> c.ord, fw |-> c.fw, lim |-> SubSeq(<<c.l1, c.l2>>, 1, c.nw),
   cap |-> [i \in 1..(c.n + 4) |-> Cap(i)], d |-> [i \in 1..(c.n + 4) |-> c.nu \div Cap(i)],
   q |-> [m \in 1..c.ne |-> [i \in 1..c.n |-> tape[(m - 1) * c.n + i]]],
   s |-> [w \in 1..c.nw |-> [j \in 1..ni |-> Sp(w, j)]],
   wave |-> [m \in 1..c.ne |-> [w \in 1..c.nw |-> [j \in 1..ni |-> tape[oW + ((m - 1) * c.nw + w - 1) * ni + j]]]],
   am |-> [m \in 1..c.ne |-> [j \in 1..ni |-> tape[oA + (m - 1) * ni + j]]],
   ap |-> [m \in 1..c.ne |-> [j \in 1..ni |-> tape[oP + (m - 1) * ni + j]]]]
Step == /\ pc = 0 /\ Len(tape) = Need(c) /\ pc' = 1 /\ UNCHANGED <<c, tape>>
Out == /\ pc = 1 /\ pc' = 2 /\ PrintT("BEH " \o ToJson([p |-> Prob, capa |-> c.capa, nu |-> c.nu])) /\ UNCHANGED <<c, tape>>
Next == Draw \/ Step \/ Out
Spec == Init /\ [][Next]_vars

(* weighted by capacity, the interior total changes by what the fluctuations*)
(* and the two outermost correction fluxes carry                            *)
RECURSIVE Tot(_,_)
Tot(f, k) == IF k = 0 THEN 0 ELSE f[k] + Tot(f, k - 1)
Telescopes == pc = 1 =>
  LET p == Prob IN \A m \in 1..p.ne :
    Abs(Tot([i \in 1..p.n |-> p.cap[i + 2] * (New(p, m, i) - S * p.q[m][i])], p.n)
        + DivR(c.nu * (S * Tot([i \in 1..p.n |-> p.ap[m][i + 1] + p.am[m][i + 2]], p.n)
                       + (IF p.ord = 1 THEN 0 ELSE Corr(p, m, p.n + 2, p.nw) - Corr(p, m, 2, p.nw))), 64)) <= 8 * p.n + 4
==============================================================================
