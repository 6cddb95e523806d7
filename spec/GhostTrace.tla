----------------------------- MODULE GhostTrace -----------------------------
(* Judges recorded boundary fillings, cell by cell (C08).                   *)
EXTENDS GhostRules, TLC, Json, IOUtils
VARIABLES k, i, st

Init0(tr) == [qb |-> <<>>, ab |-> <<>>]
B(cond, name) == IF cond THEN {} ELSE {name}

(* position of a cell in a flattened array (last index fastest)             *)
RECURSIVE Pos(_,_,_)
Pos(sh, idx, d) == IF d = 0 THEN 0 ELSE Pos(sh, idx, d - 1) * sh[d] + idx[d] - 1
Shape(f) == [d \in 1..Len(f.n) |-> f.n[d] + 2 * f.g]
RECURSIVE Prod(_,_)
Prod(sh, d) == IF d = 0 THEN 1 ELSE sh[d] * Prod(sh, d - 1)
At(arr, sh, m, idx) == arr[(m - 1) * Prod(sh, Len(sh)) + Pos(sh, idx, Len(sh)) + 1]
Tuples(sh) == CASE Len(sh) = 1 -> { <<a>> : a \in 1..sh[1] }
                [] Len(sh) = 2 -> (1..sh[1]) \X (1..sh[2])
                [] OTHER -> (1..sh[1]) \X (1..sh[2]) \X (1..sh[3])

MarkQ(d, low, m, x) == 900000 + 10000 * d + (IF low THEN 5000 ELSE 0) + 100 * m + x
MarkA(d, low, m, x) == 700000 + 10000 * d + (IF low THEN 5000 ELSE 0) + 100 * m + x

Wrong(f, inn, old, full, nm, Mark(_,_,_,_)) ==
  LET sh == Shape(f)
      nd == Len(f.n)
      In(m, idx) == At(inn, f.n, m, [d \in 1..nd |-> idx[d] - f.g])
      Old(m, idx) == IF old = <<>> THEN 0 ELSE At(old, sh, m, idx)
      Interior(idx) == \A d \in 1..nd : ~Ghostly(f, d, idx[d])
      bad == { mx \in (1..nm) \X Tuples(sh) :
                At(full, sh, mx[1], mx[2]) # Img(f, In, Old, Mark, mx[1], mx[2], nd) } IN
  [inner |-> { mx \in bad : Interior(mx[2]) }, ghost |-> { mx \in bad : ~Interior(mx[2]) }]

Bad(tr, s, e) ==
  CASE e.e = "crash" -> {"ALL.crash"}
    [] e.e = "fill" ->
       LET wq == Wrong(e.qf, e.q, s.qb, e.qb, e.ne, MarkQ)
           wa == IF e.na = 0 THEN [inner |-> {}, ghost |-> {}] ELSE Wrong(e.af, e.a, s.ab, e.ab, e.na, MarkA) IN
       B(wq.inner = {}, "C08.interior") \cup B(wq.ghost = {}, "C08.ghost") \cup
       B(wa.inner = {}, "C08.auxinterior") \cup B(wa.ghost = {}, "C08.auxghost") \cup
       B(e.q2 = e.q, "C08.datachanged") \cup B(e.a2 = e.a, "C08.auxchanged") \cup B(e.args = 1, "C08.userargs")
    [] OTHER -> {"ALL.unknownevent"}
After(tr, s, e) == IF e.e = "fill" THEN [qb |-> e.qb, ab |-> e.ab] ELSE s
INSTANCE TraceBase
=============================================================================
