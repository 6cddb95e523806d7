----------------------------- MODULE HistTrace -----------------------------
(* Judges recorded process histories (C20): the result of a simulation is   *)
(* the one it has when it is alone in a fresh process.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES k, i, st
B(cond, name) == IF cond THEN {} ELSE {name}
(* st: [fresh: set of <<simulation, result>>, live: set of instances running] *)
Init0(tr) == [fresh |-> {}, live |-> {}]
Known(s, x) == \E p \in s.fresh : p[1] = x
Bad(tr, s, e) ==
  CASE e.e = "crash" -> {"ALL.crash"}
    [] e.e = "fresh" -> B(e.ok = 1, "C20.crash")
    [] e.e = "start" -> {}
    [] e.e = "seg" -> {}
    [] e.e = "died" -> {"C20.crash"}
    [] e.e = "finish" ->
       IF ~Known(s, e.s) THEN {"ALL.unknownevent"}
       ELSE B(<<e.s, e.res>> \in s.fresh, "C20.result")
    [] OTHER -> {"ALL.unknownevent"}
After(tr, s, e) == IF e.e = "fresh" THEN [s EXCEPT !.fresh = @ \cup {<<e.s, e.res>>}] ELSE s
INSTANCE TraceBase
=============================================================================
