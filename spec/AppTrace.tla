------------------------------ MODULE AppTrace ------------------------------
(* Judges recorded regression verdicts (C23) and command lines (C24).       *)
EXTENDS VerdictRules, ArgvRules, FiniteSets, TLC, Json, IOUtils
VARIABLES k, i, st
B(cond, name) == IF cond THEN {} ELSE {name}
Init0(tr) == 0
BadDiff(e) ==
  LET ok == Accept(e.kind, e.x, e.y, e.w, e.m) IN
  IF e.ret = "error" THEN {"C23.failed"}
  ELSE IF ok THEN B(e.ret = "none", "C23.rejected")
  ELSE B(e.ret = "report", "C23.accepted")
       \cup (IF e.ret = "report" /\ Clean(e.x) /\ Clean(e.y) THEN B(e.norms = Norms(e.x, e.y, e.w), "C23.norms") ELSE {})
BadSame(e) == IF SameSol(e.a, e.b) THEN B(e.raised = 0, "C23.rejected") ELSE B(e.raised = 1, "C23.accepted")
Var(e, lang) == e.vars[CHOOSE j \in 1..Len(e.vars) : e.vars[j][1] = lang]
(* what the runs of a session leave, in the order in which they were started *)
RECURSIVE Expect(_, _, _)
Expect(e, o, stop) == IF o = <<>> THEN <<>>
  ELSE LET w == Word(Var(e, o[1])[2]) IN
       << [lang |-> o[1], word |-> w, steps |-> Steps(Var(e, o[1])[2])] >> \o (IF stop /\ w # "ok" THEN <<>> ELSE Expect(e, Tail(o), stop))
BadSession(e) ==
  LET x == Expect(e, e.order, e.mode = "batch") IN
  B(e.made = Len(e.vars) \/ e.mode = "batch", "C23.variants")
  \cup B(Len(e.got) = Len(x), "C23.runs")
  \cup (IF Len(e.got) # Len(x) THEN {}
        ELSE UNION { B(e.got[j].lang = x[j].lang, "C23.parameters") \cup B(e.got[j].extra = 1, "C23.parameters")
                     \cup B(e.got[j].steps = x[j].steps, "C23.steps") \cup B(e.got[j].word = x[j].word, "C23.verdict") : j \in 1..Len(x) })
BadMain(e) ==
  B(e.raised = 0, "C24.failed")
  \cup (IF e.raised = 1 THEN {} ELSE
         B({ e.kw[j] : j \in 1..Len(e.kw) } = ForApp(e.line) /\ Len(e.kw) = Cardinality(ForApp(e.line)), "C24.parameters")
         \cup B(e.made = 1 /\ e.ran = 1 /\ e.same = 1, "C24.run")
         \cup B([j \in 1..Len(e.plots) |-> [kind |-> e.plots[j].kind, dir |-> e.plots[j].dir]] = Plots(e.line), "C24.plots")
         \cup B(\A j \in 1..Len(e.plots) : e.plots[j].after = 1 /\ e.plots[j].setplot = e.setplot, "C24.plots"))
Bad(tr, s, e) ==
  CASE e.e = "crash" -> {"ALL.crash"}
    [] e.e = "diff" -> BadDiff(e)
    [] e.e = "same" -> BadSame(e)
    [] e.e = "session" -> BadSession(e)
    [] e.e = "main" -> BadMain(e)
    [] OTHER -> {"ALL.unknownevent"}
After(tr, s, e) == 0
INSTANCE TraceBase
=============================================================================
