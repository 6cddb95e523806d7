----------------------------- MODULE ObsTrace ------------------------------
(* Judges recorded simulations that are watched (C17).  ref: the contents   *)
(* of the same simulation after each segment when nobody watches.  A        *)
(* content is a sequence of names of values.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES k, i, st
B(cond, name) == IF cond THEN {} ELSE {name}
Init0(tr) == [c |-> <<>>, seg |-> 0]
Bad(tr, s, e) ==
  CASE e.e = "crash" -> {"ALL.crash"}
    [] e.e = "start" -> B(e.c = tr.cfg.ref[1], "C17.start")
    [] e.e = "seg" -> B(e.c = tr.cfg.ref[s.seg + 2], "C17.diverged")
    [] e.e = "watch" -> B(e.c = s.c, "C17.disturbed") \cup B(e.raised = 0, "C17.failed")
    (* a whole run under the controller, with (c) and without (r) its observers *)
    [] e.e = "runs" -> B(e.raised = 0, "C17.failed")
                       \cup B(e.raised = 1 \/ e.c = e.r, "C17.run") \cup B(e.raised = 1 \/ e.steps = e.rsteps, "C17.steps")
    [] OTHER -> {"ALL.unknownevent"}
After(tr, s, e) ==
  CASE e.e \in {"start", "watch"} -> [s EXCEPT !.c = e.c]
    [] e.e = "seg" -> [c |-> e.c, seg |-> s.seg + 1]
    [] OTHER -> s
INSTANCE TraceBase
=============================================================================
