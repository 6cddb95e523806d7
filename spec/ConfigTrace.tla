---------------------------- MODULE ConfigTrace ----------------------------
(* Judges recorded attempts to run configurations with mistakes (C19).      *)
EXTENDS ConfigRules, TLC, Json, IOUtils
VARIABLES k, i, st
B(cond, name) == IF cond THEN {} ELSE {name}
Init0(tr) == [ref |-> 0]
Set(q) == { q[j] : j \in 1..Len(q) }
Bad(tr, s, e) ==
  CASE e.e = "crash" -> {"ALL.crash"}
    (* a correct configuration runs to its end *)
    [] e.e = "good" -> B(e.raised = 0, "C19.refused") \cup B(e.raised = 1 \/ e.end = 1, "C19.unfinished")
    (* one with mistakes does not, and changes nothing *)
    [] e.e = "bad" -> B(\A m \in Set(e.bad) : Applies(m, tr.cfg.fam, tr.cfg.route, tr.cfg.aux), "ALL.unknownevent")
                      \cup B(e.raised = 1, "C19.accepted")
                      \cup B(e.data = 1, "C19.data") \cup B(e.time = 1, "C19.time") \cup B(e.files = 1, "C19.files")
    (* an option the solver does not have *)
    [] e.e = "option" -> B(e.raised = 1, "C19.option")
    (* one it has *)
    [] e.e = "known" -> B(e.raised = 0, "C19.known")
    (* the mistakes corrected, with a new solver, on the same solution: as if they had never been made *)
    [] e.e = "again" -> B(e.raised = 0, "C19.refused") \cup B(e.raised = 1 \/ e.same = 1, "C19.aftermath")
    [] OTHER -> {"ALL.unknownevent"}
After(tr, s, e) == s
INSTANCE TraceBase
=============================================================================
