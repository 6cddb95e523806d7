----------------------------- MODULE GhostModel -----------------------------
(* Filling ghost cells side by side, as a process, against the closed form  *)
(* Img: two components on a two-dimensional patch.                          *)
EXTENDS GhostRules, TLC, Json
CONSTANTS Kinds, N1, N2, G, Emit, Acts
VARIABLES f, arr, arr0, pc
vars == <<f, arr, arr0, pc>>

Idx == (1..(N1 + 2 * G)) \X (1..(N2 + 2 * G))
Comp == 1..2
ActSet == { <<a \div 10, a % 10>> : a \in Acts }
In0(m, x) == 100 * m + 10 * x[1] + x[2]
Old0(m, x) == 5000 + 100 * m + 10 * x[1] + x[2]
Mark(d, low, m, x) == 9000 + 100 * d + (IF low THEN 50 ELSE 0) + 10 * m + x
IsGhost(ff, x) == Ghostly(ff, 1, x[1]) \/ Ghostly(ff, 2, x[2])

Init ==
  /\ f \in [n : {<<N1, N2>>}, g : {G}, bl : Kinds \X Kinds, bu : Kinds \X Kinds, al : ActSet, au : ActSet, rf : {<<1, 2>>, <<2, 2>>}]
  /\ arr0 = [mx \in Comp \X Idx |-> IF IsGhost(f, mx[2]) THEN Old0(mx[1], mx[2]) ELSE In0(mx[1], mx[2])]
  /\ arr = arr0 /\ pc = 1

Side(d, low) ==
  [mx \in Comp \X Idx |->
    LET m == mx[1] x == mx[2] kind == IF low THEN f.bl[d] ELSE f.bu[d] IN
    IF ~Filled(f, d, low) \/ (IF low THEN ~Lower(f, d, x[d]) ELSE ~Upper(f, d, x[d])) THEN arr[mx]
    ELSE IF kind = "custom" THEN Mark(d, low, m, x[d])
    ELSE (IF kind = "wall" /\ f.rf[d] = m THEN -1 ELSE 1) * arr[<<m, [x EXCEPT ![d] = Source(f, d, kind, x[d])]>>]]

Fill == /\ pc \in 1..4 /\ pc' = pc + 1
        /\ arr' = Side((pc + 1) \div 2, pc \in {1, 3})
        /\ UNCHANGED <<f, arr0>>
EmitB == /\ Emit /\ pc = 5 /\ pc' = 6 /\ PrintT("BEH " \o ToJson(f)) /\ UNCHANGED <<f, arr, arr0>>
Next == Fill \/ EmitB
Spec == Init /\ [][Next]_vars

ClosedForm == pc = 5 => \A m \in Comp, x \in Idx : arr[<<m, x>>] = Img(f, In0, Old0, Mark, m, x, 2)
InteriorUntouched == \A m \in Comp, x \in Idx : ~IsGhost(f, x) => arr[<<m, x>>] = arr0[<<m, x>>]
(* sides are independent: an interior-only neighbour of one side never      *)
(* depends on the condition of another side                                 *)
(* a ghost cell beyond one side only depends on that side's condition       *)
SideIndependence == pc = 5 => \A d \in 1..2, m \in Comp, x \in Idx :
  (Ghostly(f, d, x[d]) /\ ~Ghostly(f, 3 - d, x[3 - d])) =>
     arr[<<m, x>>] = LET low == Lower(f, d, x[d]) kind == IF low THEN f.bl[d] ELSE f.bu[d] IN
                     IF ~Filled(f, d, low) THEN arr0[<<m, x>>]
                     ELSE IF kind = "custom" THEN Mark(d, low, m, x[d])
                     ELSE (IF kind = "wall" /\ f.rf[d] = m THEN -1 ELSE 1) * In0(m, [x EXCEPT ![d] = Source(f, d, kind, x[d])])
=============================================================================
