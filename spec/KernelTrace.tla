----------------------------- MODULE KernelTrace -----------------------------
(* Judges recorded one-dimensional classic steps (C09), the Courant number  *)
(* reported for them (C03) and tables of measured limiter values (C22).     *)
EXTENDS KernelRules, TLC, Json, IOUtils
VARIABLES k, i, st

Init0(tr) == 0
B(cond, name) == IF cond THEN {} ELSE {name}
Tol == 8
Close(a, b, t) == a - b <= t /\ b - a <= t

StepOk(p, q2) == \A m \in 1..p.ne : \A x \in 1..p.n : Close(q2[m][x], New(p, m, x), Tol)

(* entry t of a table: family f, upwind ratio num/den, Courant number c/64, *)
(* measured value v (scaled by S); z = 1: a wave of strength zero           *)
EntryBad(e, t) ==
  IF t.z = 1 THEN B(t.v = 0, "C22.zerowave")
  ELSE LET l == e.lim[t.f] IN
       (IF HasFormula(l) THEN B(Close(t.v, Phi(l, t.num, t.den, t.c), 4), "C22.formula") ELSE {}) \cup
       (IF IsTVD(l) THEN
          B(t.num > 0 \/ t.v \in -1..1, "C22.extremum") \cup
          B(t.num # t.den \/ Close(t.v, S, 1), "C22.linear") \cup
          B(t.v >= -1 /\ t.v <= 2 * S + 1 /\ (t.num <= 0 \/ t.v <= DivR(2 * S * t.num, t.den) + 2), "C22.tvdregion")
        ELSE {}) \cup
       (IF l \in 11..23 THEN B(t.v > -1000000, "C22.finite") ELSE {})
Pointwise(e) == \A a, b \in 1..Len(e.tab) :
  LET x == e.tab[a] y == e.tab[b] IN
  (x.z = 0 /\ y.z = 0 /\ e.lim[x.f] = e.lim[y.f] /\ x.num * y.den = y.num * x.den /\ x.c = y.c) => Close(x.v, y.v, 2)

Bad(tr, s, e) ==
  CASE e.e = "crash" -> {"ALL.crash"}
    [] e.e = "step" ->
       B(StepOk(e.p, e.q2), "C09.update") \cup B(e.cfl = Courant(e.p), "C03.courant") \cup
       B(e.cfl = Courant(e.p), "C09.courant") \cup B(e.aux2 = e.aux, "C09.auxchanged")
    [] e.e = "pair" -> B(e.diff = 0, "C09.kernels") \cup B(e.cfldiff = 0, "C09.kernelcfl")
    [] e.e = "far" -> B(e.diff = 0, "C09.local")
    [] e.e = "phi" -> UNION { EntryBad(e, e.tab[t]) : t \in 1..Len(e.tab) } \cup B(Pointwise(e), "C22.pointwise")
    [] OTHER -> {"ALL.unknownevent"}
After(tr, s, e) == 0
INSTANCE TraceBase
==============================================================================
