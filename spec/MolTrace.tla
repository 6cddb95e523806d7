------------------------------- MODULE MolTrace -------------------------------
(* Judges recorded runs of the method-of-lines integrators.  cfg: ti, s      *)
(* (steps of a multistep method), a, b, c (user tableau, 60ths), al, be.     *)
EXTENDS MolRules, TLC, Json, IOUtils
VARIABLES k, i, st
OFF == -2147483000
Init0(tr) == [n |-> 0, t |-> 0, q |-> <<>>, k1 |-> <<>>, have |-> FALSE, ev |-> <<>>, hist |-> <<>>, open |-> FALSE]
B(cond, name) == IF cond THEN {} ELSE {name}
Tol == 6
Near(x, y) == x - y <= Tol /\ y - x <= Tol
Same(u, v) == Len(u) = Len(v) /\ \A x \in 1..Len(u) : Near(u[x], v[x]) /\ u[x] # OFF

IsMulti(tr) == tr.cfg.ti \in {"SSPLMMk2", "SSPLMMk3", "LMM"}
Starting(tr, s) == IsMulti(tr) /\ s.n + 1 < tr.cfg.s
Rk(tr, s) == IF IsMulti(tr) THEN (IF tr.cfg.ti = "LMM" THEN "SSP104" ELSE "SSP22") ELSE tr.cfg.ti
Tableau(tr, s) == IF tr.cfg.ti = "RK" THEN [a |-> tr.cfg.a, b |-> tr.cfg.b] ELSE Tab(Rk(tr, s))
StageTimes(tr, s) == LET T == Tableau(tr, s) IN
  IF tr.cfg.ti = "RK" THEN tr.cfg.c ELSE [x \in 1..Len(T.b) |-> CSum(T.a, x)]
P(tr) == IF IsMulti(tr) THEN "C13" ELSE "C12"

(* evaluations of the attempt with the one at its start, which a retaken     *)
(* step may have kept                                                        *)
All(tr, s, m) == IF Len(s.ev) = m THEN s.ev ELSE IF Len(s.ev) = m - 1 /\ s.have THEN <<[t |-> s.t, q |-> s.q, k |-> s.k1]>> \o s.ev ELSE <<>>

RkBad(tr, s, e, nm) ==
  LET T == Tableau(tr, s)
      m == Len(T.b)
      E == All(tr, s, m)
      h == (e.t - s.t) \div 60
      C == StageTimes(tr, s)
      ks == [x \in 1..Len(E) |-> E[x].k]
      N == Len(s.q) IN
  IF Len(E) # m THEN {P(tr) \o ".evaluations"}
  ELSE B(\A x \in 1..m : E[x].t = s.t + (C[x] * h), P(tr) \o ".stagetime")
       \cup B(\A x \in 1..m : Same(E[x].q, [y \in 1..N |-> Plus(s.q, h, T.a[x], SubSeq(ks, 1, x - 1), y)]), P(tr) \o ".stage")
       \cup B(Same(e.q, [y \in 1..N |-> Plus(s.q, h, T.b, ks, y)]), nm)

(* the history: accepted steps with their data and rates, the present last   *)
LmBad(tr, s, e) ==
  LET E == All(tr, s, 1)
      h == (e.t - s.t) \div 60
      hh == Append(s.hist, [t |-> s.t \div 60, q |-> s.q, k |-> E[1].k])
      n == Len(hh)
      o == hh[n - tr.cfg.s + 1]
      c == hh[n]
      H == c.t - o.t
      N == Len(s.q) IN
  IF Len(E) # 1 THEN {"C13.evaluations"}
  ELSE B(E[1].t = s.t /\ Same(E[1].q, s.q), "C13.ratedata")
       \cup B(Same(e.q, [y \in 1..N |-> CASE tr.cfg.ti = "SSPLMMk2" -> K2(c.q, c.k, o.q, h, H, y)
                                         [] tr.cfg.ti = "SSPLMMk3" -> K3(c.q, c.k, o.q, o.k, h, H, y)
                                         [] OTHER -> Gen(hh, tr.cfg.al, tr.cfg.be, h, y)]), "C13.result")

Accepted(s, e) == s.open /\ e.n = s.n + 1
CloseBad(tr, s, e) ==
  IF ~Accepted(s, e) THEN B(e.n = s.n, P(tr) \o ".count") \cup (IF s.q = <<>> THEN {} ELSE B(Same(e.q, s.q), P(tr) \o ".rejecteddata"))
  ELSE IF e.t % 60 # 0 \/ e.t = OFF THEN {"ALL.offtick"}
  ELSE IF IsMulti(tr) /\ ~Starting(tr, s) THEN LmBad(tr, s, e)
  ELSE RkBad(tr, s, e, IF IsMulti(tr) THEN "C13.start" ELSE "C12.result")
K1(tr, s) == IF Len(s.ev) > 0 /\ (~s.have \/ Same(s.ev[1].q, s.q)) THEN s.ev[1].k ELSE s.k1
Close(tr, s, e) ==
  IF Accepted(s, e)
  THEN [s EXCEPT !.hist = Append(@, [t |-> s.t \div 60, q |-> s.q, k |-> K1(tr, s)]), !.n = e.n, !.t = e.t, !.q = e.q,
                 !.have = FALSE, !.k1 = <<>>, !.ev = <<>>]
  ELSE [s EXCEPT !.n = e.n, !.t = e.t, !.q = e.q, !.have = s.open /\ (s.have \/ Len(s.ev) > 0), !.k1 = IF s.open THEN K1(tr, s) ELSE @, !.ev = <<>>]

Bad(tr, s, e) ==
  CASE e.e = "at" -> CloseBad(tr, s, e)
    [] e.e = "ev" -> {}
    [] e.e = "ret" -> CloseBad(tr, s, e) \cup B(e.raised = e.want, P(tr) \o ".raised")
    [] e.e = "crash" -> {"ALL.crash"}
    [] OTHER -> {"ALL.unknownevent"}
After(tr, s, e) ==
  CASE e.e = "at" -> [Close(tr, s, e) EXCEPT !.open = TRUE]
    [] e.e = "ev" -> [s EXCEPT !.ev = Append(@, [t |-> e.t, q |-> e.q, k |-> e.k])]
    [] e.e = "ret" -> [Close(tr, s, e) EXCEPT !.open = FALSE]
    [] OTHER -> s
INSTANCE TraceBase
===============================================================================
