----------------------------- MODULE CopyTrace -----------------------------
(* Judges recorded histories of solutions and their copies (C06).  The      *)
(* content of a solution is a sequence of names of values, in the order     *)
(* time, data, auxiliary data, capacity index, parameters, geometry,        *)
(* mapped coordinates, layout.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES k, i, st
B(cond, name) == IF cond THEN {} ELSE {name}
PartName == <<"time", "data", "aux", "capacity", "parameters", "geometry", "mapping", "layout">>
Init0(tr) == [c |-> <<>>, memo |-> {}]
(* all solutions but those in S are as before *)
Others(s, e, S) == B(\A x \in 1..Len(s.c) : x \in S \/ e.all[x] = s.c[x], "C06.shared")
Equal(a, b) == { "C06." \o PartName[p] : p \in { p \in 1..8 : a[p] # b[p] } }
Seen(s, key) == { m \in s.memo : m[1] = key }
Bad(tr, s, e) ==
  CASE e.e = "crash" -> {"ALL.crash"}
    [] e.e = "new" -> {}
    [] e.e = "copy" -> IF e.raised = 1 THEN {"C06.nocopy"}
                       ELSE Others(s, e, {}) \cup Equal(e.all[Len(e.all)], s.c[e.x])
    [] e.e = "change" -> Others(s, e, {e.x})
    [] e.e = "evolve" ->
         Others(s, e, {e.x})
         \cup B(\A m \in Seen(s, <<s.c[e.x], e.k>>) : m[2] = <<e.raised, e.all[e.x]>>, "C06.continue")
    (* a run that keeps frames: e.n of them, the last objects of e.all *)
    [] e.e = "run" ->
         IF e.raised = 1 THEN {"C06.norun"}
         ELSE Others(s, e, {e.x})
              \cup Equal(e.all[Len(s.c) + 1], s.c[e.x])
              \cup Equal(e.all[Len(e.all)], e.all[e.x])
              \cup B(\A m \in Seen(s, <<s.c[e.x], e.k>>) : m[2] = SubSeq(e.all, Len(s.c) + 1, Len(e.all)), "C06.continue")
    [] OTHER -> {"ALL.unknownevent"}
After(tr, s, e) ==
  CASE e.e \in {"new", "copy", "change"} -> [s EXCEPT !.c = e.all]
    [] e.e = "evolve" -> [c |-> e.all, memo |-> s.memo \cup {<< <<s.c[e.x], e.k>>, <<e.raised, e.all[e.x]>> >>}]
    [] e.e = "run" -> [c |-> e.all, memo |-> IF e.raised = 1 THEN s.memo ELSE s.memo \cup {<< <<s.c[e.x], e.k>>, SubSeq(e.all, Len(s.c) + 1, Len(e.all)) >>}]
    [] OTHER -> s
INSTANCE TraceBase
=============================================================================
