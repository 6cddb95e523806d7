----------------------------- MODULE GeomTrace -----------------------------
(* Judges recorded histories of a grid (C18).                               *)
EXTENDS GeomRules, FiniteSets, TLC, Json, IOUtils
VARIABLES k, i, st
B(cond, name) == IF cond THEN {} ELSE {name}
Init0(tr) == [g |-> <<>>, m |-> 1]
Point(s, isnode, ix) == [d \in 1..Len(s.g) |-> IF isnode = 1 THEN Nod(s.g, d, ix[d]) ELSE Ctr(s.g, d, ix[d])]
(* e.val: samples [ix (0-based, shifted so that ghosts are negative), x (coordinates times W)] *)
BadArr(s, e) ==
  B(e.shape = [d \in 1..Len(s.g) |-> s.g[d].n + 2 * e.gh + e.node], "C18.shape")
  \cup B(\A j \in 1..Len(e.val) :
        e.val[j].x = Img(IF e.mapped = 1 THEN s.m ELSE 1, Point(s, e.node, e.val[j].ix), W(s.g)),
        IF e.mapped = 1 THEN "C18.mapped" ELSE "C18.coordinates")
(* one-dimensional arrays of a dimension *)
BadDim(s, e) ==
  B(/\ Len(e.x) = s.g[e.d].n + 2 * e.gh + e.node
    /\ \A j \in 1..Len(e.x) : e.x[j] = IF e.node = 1 THEN Nod(s.g, e.d, j - 1 - e.gh) ELSE Ctr(s.g, e.d, j - 1 - e.gh), "C18.dimension")
Ext(s, e) ==
  /\ e.l = [d \in 1..Len(s.g) |-> s.g[d].l] /\ e.u = [d \in 1..Len(s.g) |-> s.g[d].u] /\ e.n = [d \in 1..Len(s.g) |-> s.g[d].n]
  (* cell widths, times W *)
  /\ e.dx = [d \in 1..Len(s.g) |-> (W(s.g) \div (4 * s.g[d].n)) * (s.g[d].u - s.g[d].l)]
BadGauge(s, e) ==
  LET D == 1..Len(s.g)
      cell == [d \in D |-> CellOf(s.g[d], e.at[d])]
      inside == \A d \in D : cell[d] >= 0
  IN IF e.idx = <<>> THEN B(~inside, "C18.gauge")
     ELSE B(/\ inside
            /\ \A d \in D : \/ e.idx[d] = cell[d]
                            \/ e.exact = 0 /\ OnNode(s.g[d], e.at[d]) /\ e.idx[d] = cell[d] - 1 /\ cell[d] > 0, "C18.gauge")
Bad(tr, s, e) ==
  CASE e.e = "crash" -> {"ALL.crash"}
    [] e.e = "change" -> B(e.ok = 1, "C18.refused")
    [] e.e = "map" -> {}
    [] e.e = "refuse" -> B(e.raised = 1, "C18.accepted")
    [] e.e = "arr" -> IF e.off = 1 THEN {"C18.coordinates"} ELSE BadArr(s, e)
    [] e.e = "dim" -> IF e.off = 1 THEN {"C18.dimension"} ELSE BadDim(s, e)
    [] e.e = "ext" -> IF e.off = 1 THEN {"C18.extents"} ELSE B(Ext(s, e), "C18.extents")
    [] e.e = "cell" -> IF e.off = 1 THEN {"C18.cell"}
                       ELSE B(e.x = Img(IF e.mapped = 1 THEN s.m ELSE 1, Point(s, 0, e.ix), W(s.g)), "C18.cell")
    [] e.e = "gauge" -> BadGauge(s, e)
    (* a gauge within rounding of the upper end lies in the last cell *)
    [] e.e = "edge" -> B(\A d \in 1..Len(s.g) : e.idx[d] \in {s.g[d].n - 1, s.g[d].n - 2} /\ e.idx[d] >= 0, "C18.gauge")
    [] OTHER -> {"ALL.unknownevent"}
After(tr, s, e) ==
  CASE e.e = "change" /\ e.ok = 1 -> [g |-> [d \in 1..Len(e.l) |-> [l |-> e.l[d], u |-> e.u[d], n |-> e.n[d]]], m |-> IF e.reset = 1 THEN 1 ELSE s.m]
    [] e.e = "map" -> [s EXCEPT !.m = e.m]
    [] OTHER -> s
INSTANCE TraceBase
=============================================================================
