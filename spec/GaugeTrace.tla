----------------------------- MODULE GaugeTrace -----------------------------
(* Judges recorded histories of gauge files (C21).  Numbers are names of    *)
(* distinct values (-1: none of them); cls is how far they were off         *)
(* (0 rounding of sixteen digits, 1 single precision, 2 five decimals).     *)
EXTENDS GaugeRules, FiniteSets, TLC, Json, IOUtils
VARIABLES k, i, st
B(cond, name) == IF cond THEN {} ELSE {name}
Init0(tr) == [mem |-> [s \in {1, 2} |-> Nothing], disc |-> [x \in {} |-> NoFile]]
File(s, x) == IF x \in DOMAIN s.disc THEN s.disc[x] ELSE NoFile
Stored(s, x, f) == [s EXCEPT !.disc = [y \in DOMAIN @ \cup {x} |-> IF y = x THEN f ELSE @[y]]]
(* the observed gauge g against the expected x *)
Same(g, x) ==
  \* nothing to compare in a gauge without data but that it has none
  IF x.rows = <<>> THEN B(g.valid = 0, "C21.phantom")
  ELSE IF g.valid = 0 THEN {"C21.lost"}
  ELSE B(g.id = x.id, "C21.id")
       \cup B(g.loc = x.loc, "C21.location")
       \cup B(g.gt = x.gt, "C21.type")
       \cup B(Len(g.lev) = Len(x.rows) /\ Len(g.t) = Len(x.rows) /\ Len(g.q) = x.nf /\ \A m \in 1..Len(g.q) : Len(g.q[m]) = Len(x.rows), "C21.records")
       \cup B(g.lev = [r \in 1..Len(x.rows) |-> x.rows[r].lev], "C21.levels")
       \cup B(g.t = [r \in 1..Len(x.rows) |-> x.rows[r].t] /\ g.tc <= x.tc, "C21.times")
       \cup B(g.q = [m \in 1..x.nf |-> [r \in 1..Len(x.rows) |-> x.rows[r].q[m]]] /\ g.qc <= x.qc, "C21.values")
PathOk(g, x) == B(x.rows = <<>> \/ g.valid = 0 \/ g.path = Path(x), "C21.path")
BadRead(s, e) ==
  LET v == Verdict(File(s, e.id), e.id) IN
  CASE v = "refuse" -> B(e.raised = 1, "C21.accepted")
    [] v = "nodata" -> IF e.raised = 1 THEN {} ELSE B(e.g.valid = 0, "C21.phantom")
    [] OTHER -> IF e.raised = 1 THEN {"C21.refused"} ELSE Same(e.g, Content(File(s, e.id))) \cup PathOk(e.g, Content(File(s, e.id)))
Bad(tr, s, e) ==
  CASE e.e = "crash" -> {"ALL.crash"}
    [] e.e = "make" -> {}
    [] e.e = "put" -> {}
    [] e.e = "write" -> IF s.mem[e.s].rows = <<>> THEN B(e.raised = 1, "C21.wrotenothing") ELSE B(e.raised = 0, "C21.notwritten")
    [] e.e = "convert" -> B(e.raised = 0, "C21.notconverted")
    [] e.e = "read" -> BadRead(s, e)
    [] e.e = "look" -> Same(e.g, s.mem[e.s])
    [] OTHER -> {"ALL.unknownevent"}
RECURSIVE Conv(_, _)
Conv(s, gs) == IF gs = <<>> THEN s
  ELSE Conv(Stored(s, gs[1].id, [Written(gs[1], 0) EXCEPT !.bin = File(s, gs[1].id).bin, !.vals = File(s, gs[1].id).vals]), Tail(gs))
After(tr, s, e) ==
  CASE e.e = "make" -> [s EXCEPT !.mem[e.s] = e.g]
    [] e.e = "put" -> Stored(s, e.id, e.f)
    [] e.e = "write" /\ s.mem[e.s].rows # <<>> ->
         LET x == s.mem[e.s].id IN Stored(s, x, [Written(s.mem[e.s], e.fc) EXCEPT !.bin = File(s, x).bin, !.vals = File(s, x).vals])
    [] e.e = "convert" -> Conv(s, e.gs)
    [] e.e = "read" -> [s EXCEPT !.mem[e.s] = IF Verdict(File(s, e.id), e.id) = "data" THEN Content(File(s, e.id)) ELSE Nothing]
    [] OTHER -> s
INSTANCE TraceBase
=============================================================================
