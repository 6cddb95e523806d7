----------------------------- MODULE ObsModel ------------------------------
(* A simulation advanced in segments, watched in between: frames written,   *)
(* copies kept, gauges read, derived quantities and functionals computed,   *)
(* descriptions printed.  An observer first takes what it needs (a picture  *)
(* of the data), then works on its picture, perhaps over several steps      *)
(* (rearranging it, storing it, failing in the middle), and is done.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, MaxSeg, MaxOps, InPlace, Emit
VARIABLES data, aux, seg, watch, out, hist
vars == <<data, aux, seg, watch, out, hist>>
(* data is a sequence of cells; a segment is a fixed function of data and auxiliary values *)
F(d, a) == [j \in 1..Len(d) |-> (3 * d[j] + d[1 + (j % Len(d))] + a[j]) % 7]
RECURSIVE Iter(_, _, _)
Iter(d, a, n) == IF n = 0 THEN d ELSE Iter(F(d, a), a, n - 1)
Start == <<1, 2, 4>>
Aux == <<1, 0, 5>>
None == [kind |-> "none", pic |-> <<>>]
Init == data = Start /\ aux = Aux /\ seg = 0 /\ watch = None /\ out = <<>> /\ hist = <<>>
More == Len(hist) < MaxOps
Seg == /\ More /\ watch = None /\ seg < MaxSeg
       /\ data' = F(data, aux) /\ seg' = seg + 1 /\ hist' = Append(hist, "seg") /\ UNCHANGED <<aux, watch, out>>
Open(k) == /\ More /\ watch = None
           /\ watch' = [kind |-> k, pic |-> data] /\ hist' = Append(hist, k) /\ UNCHANGED <<data, aux, seg, out>>
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
(* rearranging: of the picture only (of the data itself where InPlace holds the kind, to see what goes wrong) *)
Rearrange == /\ watch # None /\ watch.pic = data
             /\ watch' = [watch EXCEPT !.pic = Rev(@)]
             /\ data' = IF watch.kind \in InPlace THEN Rev(data) ELSE data
             /\ UNCHANGED <<aux, seg, out, hist>>
Done == /\ watch # None /\ watch' = None /\ out' = Append(out, <<watch.kind, watch.pic>>) /\ UNCHANGED <<data, aux, seg, hist>>
Fail == /\ watch # None /\ watch' = None /\ UNCHANGED <<data, aux, seg, out, hist>>
Next == Seg \/ (\E k \in Kinds : Open(k)) \/ Rearrange \/ Done \/ Fail
Spec == Init /\ [][Next]_vars
R(S) == RandomElement({ x \in S : Len(hist) >= 0 })
SpecSim == Init /\ [][Seg \/ Open(R(Kinds)) \/ Open(R(Kinds)) \/ Done]_vars
Unwatched == data = Iter(Start, Aux, seg) /\ aux = Aux
Report == IF Emit = 1 /\ Len(hist) = MaxOps /\ watch = None THEN PrintT("BEH " \o ToJson(hist)) ELSE TRUE
=============================================================================
