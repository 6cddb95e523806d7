----------------------------- MODULE CopyModel -----------------------------
(* Solutions as objects on a heap.  A part of a solution is a reference to  *)
(* a cell; changing data in place writes the cell, assigning makes the part *)
(* refer to another cell, copying allocates new cells with equal values.    *)
(* Evolving computes new data from everything the solution holds.           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Parts, Mutable, MaxObj, MaxOps, Shared, Emit
VARIABLES obj, heap, last, hist
vars == <<obj, heap, last, hist>>
Content(x) == [p \in Parts |-> heap[obj[x][p]]]
ContentN(x) == [p \in Parts |-> heap'[obj'[x][p]]]
Order == SetToSeq(Parts)
New(n, S) == [p \in S |-> n + CHOOSE j \in 1..Len(Order) : Order[j] = p]
Init == /\ obj = << [p \in Parts |-> New(0, Parts)[p]] >> /\ heap = [c \in 1..Cardinality(Parts) |-> <<"v", 0>>]
        /\ last = [kind |-> "-", x |-> 0, y |-> 0] /\ hist = <<>>
More == Len(hist) < MaxOps
(* parts in Shared are copied by reference: for looking at what goes wrong *)
Copy(x, how) ==
  /\ More /\ Len(obj) < MaxObj
  /\ LET f == New(Len(heap), Parts) IN
     /\ heap' = heap \o [j \in 1..Cardinality(Parts) |-> heap[obj[x][CHOOSE p \in Parts : f[p] = Len(heap) + j]]]
     /\ obj' = Append(obj, [p \in Parts |-> IF p \in Shared THEN obj[x][p] ELSE f[p]])
  /\ last' = [kind |-> "copy", x |-> x, y |-> Len(obj) + 1]
  /\ hist' = Append(hist, [op |-> "copy", x |-> x, p |-> "-", how |-> how])
InPlace(x, p) ==
  /\ More /\ p \in Mutable
  /\ heap' = [heap EXCEPT ![obj[x][p]] = <<"v", Len(hist) + 1>>] /\ obj' = obj
  /\ last' = [kind |-> "change", x |-> x, y |-> 0]
  /\ hist' = Append(hist, [op |-> "inplace", x |-> x, p |-> p, how |-> "-"])
Assign(x, p) ==
  /\ More
  /\ heap' = Append(heap, <<"v", Len(hist) + 1>>) /\ obj' = [obj EXCEPT ![x][p] = Len(heap) + 1]
  /\ last' = [kind |-> "change", x |-> x, y |-> 0]
  /\ hist' = Append(hist, [op |-> "assign", x |-> x, p |-> p, how |-> "-"])
(* new conserved quantities and time, from all that the solution holds; the time integrator may
   reuse the array of the conserved quantities or not *)
Evolve(x, k) ==
  /\ More
  /\ heap' = Append([heap EXCEPT ![obj[x]["q"]] = <<"e", k, Content(x)>>], <<"t", k, Content(x)["t"]>>)
  /\ obj' = [obj EXCEPT ![x]["t"] = Len(heap) + 1]
  /\ last' = [kind |-> "evolve", x |-> x, y |-> k]
  /\ hist' = Append(hist, [op |-> "evolve", x |-> x, p |-> "-", how |-> ToString(k)])
X == 1..Len(obj)
Next == \/ \E x \in X, how \in {"sol"} : Copy(x, how)
        \/ \E x \in X, p \in Parts : InPlace(x, p) \/ Assign(x, p)
        \/ \E x \in X, k \in {1, 2} : Evolve(x, k)
R(S) == RandomElement({ x \in S : Len(hist) >= 0 })
NextSim == \/ Copy(R(X), R({"sol", "state", "run", "again"})) \/ Copy(1, R({"sol", "state", "run"}))
           \/ InPlace(R(X), R(Mutable)) \/ InPlace(R(X), R(Mutable)) \/ Assign(R(X), R(Parts)) \/ Assign(R(X), R(Parts))
           \/ Evolve(R(X), R({1, 2})) \/ Evolve(R(X), 1) \/ Evolve(Len(obj), 1)
Spec == Init /\ [][Next]_vars
SpecSim == Init /\ [][NextSim]_vars
View == <<obj, heap, last, Len(hist)>>
Independent == \A x, y \in X : x # y => { obj[x][p] : p \in Parts } \cap { obj[y][p] : p \in Parts } = {}
(* a step changes only the solution it is about, a copy equals its source, equal solutions evolve equally *)
Frame == [][\A x \in X : x # last'.x \/ last'.kind = "copy" => ContentN(x) = Content(x)]_vars
Faithful == [][last'.kind = "copy" => ContentN(last'.y) = Content(last'.x)]_vars
Continues == [][last'.kind = "evolve" => \A y \in X : Content(y) = Content(last'.x) =>
                  ContentN(last'.x) = [Content(y) EXCEPT !["q"] = <<"e", last'.y, Content(y)>>, !["t"] = <<"t", last'.y, Content(y)["t"]>>]]_vars
Report == IF Emit = 1 /\ Len(hist) = MaxOps THEN PrintT("BEH " \o ToJson(hist)) ELSE TRUE
=============================================================================
