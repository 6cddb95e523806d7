----------------------------- MODULE ConsTrace -----------------------------
(* Judges recorded steps: totals, constant data, total variation and range. *)
EXTENDS ConsRules, TLC, Json, IOUtils
VARIABLES k, i, st
B(cond, name) == IF cond THEN {} ELSE {name}
Init0(tr) == 0

(* dq: capacity times change of every cell, rounded; tot: the exact total of*)
(* the change in units of 10^-13 of the total amount                        *)
Bad(tr, s, e) ==
  CASE e.e = "crash" -> {"ALL.crash"}
    [] e.e = "tot" ->
       B(e.fin = 1, "C11.finite") \cup
       B(e.fin = 0 \/ \A m \in 1..Len(e.dq) : Abs(Sum(e.dq[m])) <= Len(e.dq[m]), "C11.total") \cup
       B(e.fin = 0 \/ \A m \in 1..Len(e.tot) : Abs(e.tot[m]) <= 20 * e.steps, "C11.total") \cup
       B(e.moved = 1, "C11.vacuous")
    [] e.e = "const" -> B(\A m \in 1..Len(e.dev) : e.dev[m] \in -20..20, "C11.constant")
    [] e.e = "tvd" ->
       B(TV(e.q2) <= TV(e.q1) + Len(e.q1), "C11.tvd") \cup
       B(MaxTo(e.q2, Len(e.q2)) <= MaxTo(e.q1, Len(e.q1)) + 1 /\ MinTo(e.q2, Len(e.q2)) >= MinTo(e.q1, Len(e.q1)) - 1, "C11.range") \cup
       B(Abs(Sum(e.q2) - Sum(e.q1)) <= Len(e.q1), "C11.total")
    [] OTHER -> {"ALL.unknownevent"}
After(tr, s, e) == 0
INSTANCE TraceBase
=============================================================================
