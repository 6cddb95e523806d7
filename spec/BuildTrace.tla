----------------------------- MODULE BuildTrace -----------------------------
(* Judges recorded constructions and settings (C25).                        *)
EXTENDS BuildRules, FiniteSets, TLC, Json, IOUtils
VARIABLES k, i, st
B(cond, name) == IF cond THEN {} ELSE {name}
Init0(tr) == <<>>
Seen(e, s) ==
  B(Len(e.states) = Len(s), "C25.states")
  \cup (IF Len(e.states) # Len(s) THEN {} ELSE UNION { LET g == e.states[j] IN
         B(g.ne = s[j].ne /\ g.qn = 1, "C25.components") \cup B(g.na = s[j].na \/ s[j].aux # (IF s[j].na = 0 THEN 0 ELSE 1), "C25.aux")
         \cup B(g.aux = s[j].aux, "C25.aux") \cup B(g.t = s[j].t, "C25.time") \cup B(g.cap = s[j].cap, "C25.capacity")
         \cup B(g.mp = s[j].mp /\ g.mF = s[j].mF /\ g.sizes = 1, "C25.sizes") \cup B(g.pd = s[j].pd, "C25.parameters")
         \cup B(g.pat = s[j].pat, "C25.patch") : j \in 1..Len(s) }
        \cup B(e.base.t = s[1].t /\ e.base.ne = s[1].ne /\ e.base.mp = s[1].mp /\ e.base.mF = s[1].mF /\ e.base.pd = s[1].pd /\ e.base.same = 1, "C25.base")
        \cup B((e.valid = 1) <=> Valid(s), "C25.valid"))
BadMake(tr, e) ==
  LET r == tr.cfg IN
  IF Refused(r) THEN B(e.raised = 1, "C25.accepted")
  ELSE IF e.raised = 1 THEN {"C25.refused"}
  ELSE B(e.pats = r.pats /\ e.names = 1, "C25.geometry") \cup B(r.sf \in Given => e.same = 1, "C25.copied")
       \cup B(e.start = 0, "C25.start") \cup Seen(e.look, Built(r))
Bad(tr, s, e) ==
  CASE e.e = "crash" -> {"ALL.crash"}
    [] e.e = "make" -> BadMake(tr, e)
    [] e.e = "other" -> B((e.raised = 1) <=> (e.bad = 1), IF e.bad = 1 THEN "C25.accepted" ELSE "C25.refused")
    [] e.e = "op" -> B((e.raised = 1) <=> MustFail(s, e.o), IF e.raised = 1 THEN "C25.refused" ELSE "C25.accepted")
                     \cup Seen(e.look, Do(s, e.o))
    [] OTHER -> {"ALL.unknownevent"}
After(tr, s, e) == CASE e.e = "make" -> IF e.raised = 1 THEN <<>> ELSE Built(tr.cfg)
                     [] e.e = "op" -> Do(s, e.o)
                     [] OTHER -> s
INSTANCE TraceBase
=============================================================================
