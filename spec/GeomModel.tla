----------------------------- MODULE GeomModel -----------------------------
(* A grid whose dimensions and mapping can be changed at any time, and      *)
(* which remembers coordinate arrays it has computed.  Dimension objects    *)
(* forget their arrays when they are changed; the grid forgets its own when *)
(* the mapping is set, a dimension is added, or the extents it computed     *)
(* them for are no longer those of its dimensions.                          *)
EXTENDS GeomRules, FiniteSets, TLC, Json
CONSTANTS Ls, Us, Ns, MaxDim, MaxOps, Emit
VARIABLES g, map, dcache, gcache, ok, hist
vars == <<g, map, dcache, gcache, ok, hist>>
Arrays == {"cc", "cn", "pc", "pn"}
None == [what |-> "none"]
Blank == [x \in Arrays |-> None]
Init == /\ \E l \in Ls, u \in Us, n \in Ns : Valid(l, u, n) /\ g = << [l |-> l, u |-> u, n |-> n] >>
        /\ map = 1 /\ dcache = <<None>> /\ gcache = [arr |-> Blank, ext |-> <<>>] /\ ok = TRUE
        /\ hist = << [op |-> "new", d |-> 1, l |-> g[1].l, u |-> g[1].u, n |-> g[1].n, m |-> 1, what |-> "-"] >>
More == Len(hist) < MaxOps
Rec(op, d, m, what) == [op |-> op, d |-> d, l |-> IF d = 0 THEN 0 ELSE g'[d].l, u |-> IF d = 0 THEN 0 ELSE g'[d].u,
                        n |-> IF d = 0 THEN 0 ELSE g'[d].n, m |-> m, what |-> what]
Set(d, field, v) ==
  LET new == [g[d] EXCEPT ![field] = v] IN
  /\ More /\ v # g[d][field] /\ Valid(new.l, new.u, new.n)
  /\ g' = [g EXCEPT ![d] = new]
  /\ dcache' = [dcache EXCEPT ![d] = None]
  /\ hist' = Append(hist, Rec("set", d, v, field))
  /\ UNCHANGED <<map, gcache, ok>>
(* an assignment that is refused changes nothing *)
Refuse(d, field, v) ==
  LET new == [g[d] EXCEPT ![field] = v] IN
  /\ More /\ ~Valid(new.l, new.u, new.n)
  /\ g' = g /\ hist' = Append(hist, Rec("refuse", d, v, field))
  /\ UNCHANGED <<map, dcache, gcache, ok>>
SetMap(m) ==
  /\ More /\ m # map
  /\ map' = m /\ gcache' = [gcache EXCEPT !.arr = Blank] /\ g' = g
  /\ hist' = Append(hist, Rec("map", 0, m, "-"))
  /\ UNCHANGED <<dcache, ok>>
AddDim(l, u, n) ==
  /\ More /\ Len(g) < MaxDim /\ Valid(l, u, n)
  /\ g' = Append(g, [l |-> l, u |-> u, n |-> n]) /\ dcache' = Append(dcache, None)
  /\ map' = 1 /\ gcache' = [gcache EXCEPT !.arr = Blank]
  /\ hist' = Append(hist, Rec("add", Len(g) + 1, 1, "-"))
  /\ ok' = ok
(* reading an array of the grid: fills and uses both kinds of memory *)
Read(a) ==
  /\ More
  /\ LET arr0 == IF gcache.ext = g THEN gcache.arr ELSE Blank
         dc == [d \in 1..Len(g) |-> IF dcache[d] = None THEN [what |-> "dim", of |-> g[d]] ELSE dcache[d]]
         here == IF arr0[a] = None THEN [what |-> a, of |-> [d \in 1..Len(g) |-> dc[d].of], m |-> IF a \in {"pc", "pn"} THEN map ELSE 0] ELSE arr0[a]
     IN /\ ok' = (here = [what |-> a, of |-> g, m |-> IF a \in {"pc", "pn"} THEN map ELSE 0])
        /\ dcache' = dc
        /\ gcache' = [arr |-> [arr0 EXCEPT ![a] = here], ext |-> g]
  /\ g' = g /\ map' = map
  /\ hist' = Append(hist, Rec("read", 0, 0, a))
Next == \/ \E d \in 1..Len(g), v \in Ls : Set(d, "l", v) \/ Refuse(d, "l", v)
        \/ \E d \in 1..Len(g), v \in Us : Set(d, "u", v) \/ Refuse(d, "u", v)
        \/ \E d \in 1..Len(g), v \in Ns \cup {0} : Set(d, "n", v) \/ Refuse(d, "n", v)
        \/ \E m \in Maps : SetMap(m)
        \/ \E l \in Ls, u \in Us, n \in Ns : AddDim(l, u, n)
        \/ \E a \in Arrays : Read(a)
Spec == Init /\ [][Next]_vars
Current == ok
Geometry == \A d \in 1..Len(g) : Valid(g[d].l, g[d].u, g[d].n)
View == <<g, map, dcache, gcache, ok, Len(hist)>>
Over == Len(hist) = MaxOps
Report == (Emit = 1 /\ Over) => PrintT("BEH " \o ToJson(hist))
=============================================================================
