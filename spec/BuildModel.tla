----------------------------- MODULE BuildModel -----------------------------
(* A solution is asked for in one of the documented forms (or another), and *)
(* its attributes are then set as a whole and one by one.                   *)
EXTENDS BuildRules, FiniteSets, TLC, Json
CONSTANTS Sfs, Gfs, Pats, MaxPats, Nes, Nas, Vals, MaxOps, Emit
(* a dimension: cells, four times its lower and upper ends *)
SmallPats == { << <<2, 0, 4>> >>, << <<3, -2, 1>>, <<2, 0, 4>> >> }
SimPats == { << <<1, 0, 4>> >>, << <<5, -3, 2>> >>, << <<12, 400, 444>> >>, << <<3, -2, 1>>, <<2, 0, 4>> >>, << <<2, 0, 4>>, <<3, -2, 1>> >>,
             << <<4, -9, -1>>, <<4, 1, 2>> >>, << <<2, 0, 1>>, <<3, 0, 2>>, <<4, 0, 3>> >>, << <<3, 5, 6>>, <<2, -8, 8>>, <<1, 0, 4>> >> }
VARIABLES req, sol, hist
vars == <<req, sol, hist>>
Ops == {"t", "mp", "mF", "all_t", "all_cap", "all_aux", "keep_aux", "keep_t", "one_t", "one_pd", "one_mp", "corder", "caux"}
NoReq == [sf |-> "-", gf |-> "-", pats |-> <<>>, ne |-> 0, na |-> 0]
Init == req = NoReq /\ sol = <<>> /\ hist = <<>>
Ask(r) == /\ req = NoReq /\ Sensible(r) /\ req' = r
          /\ sol' = IF Refused(r) THEN <<>> ELSE Built(r)
          /\ UNCHANGED hist
Op(o) == /\ sol # <<>> /\ Len(hist) < MaxOps /\ Allowed(sol, o)
         /\ sol' = Do(sol, o) /\ hist' = Append(hist, o) /\ UNCHANGED req
Shapes == UNION { [1..n -> Pats] : n \in 1..MaxPats }
Even(p) == \A j, k \in 1..Len(p) : Len(p[j]) = Len(p[k])
Next == \/ \E sf \in Sfs, gf \in Gfs, p \in Shapes, ne \in Nes, na \in Nas :
              Even(p) /\ Ask([sf |-> sf, gf |-> gf, pats |-> p, ne |-> ne, na |-> na])
        \/ \E op \in Ops, k \in 1..Len(sol), v \in Vals : Op([op |-> op, k |-> k, v |-> v])
R(S) == RandomElement({ x \in S : Len(hist) >= 0 })
P(n) == [j \in 1..n |-> R(Pats)]
NextSim == \/ /\ req = NoReq
              /\ \E sf \in Sfs, gf \in Gfs :
                   LET p == P(R(1..MaxPats)) IN Even(p) /\ Ask([sf |-> sf, gf |-> gf, pats |-> p, ne |-> R(Nes), na |-> R(Nas)])
           \/ \E op \in Ops : sol # <<>> /\ Op([op |-> op, k |-> R(1..Len(sol)), v |-> R(Vals)])
Spec == Init /\ [][Next]_vars
SpecSim == Init /\ [][NextSim]_vars
View == <<req, sol, Len(hist)>>
(* the forms agree: what is built depends on the patches and numbers only *)
Agree == (req # NoReq /\ hist = <<>> /\ ~Refused(req)) =>
           \A sf \in GoodS, gf \in GoodG : LET r == [req EXCEPT !.sf = sf, !.gf = gf] IN Sensible(r) => Built(r) = sol
(* sizes never change once there; the states stay where they are *)
Steady == [][sol # <<>> => /\ Len(sol') = Len(sol)
             /\ \A k \in 1..Len(sol) : /\ sol'[k].pat = sol[k].pat /\ sol'[k].ne = sol[k].ne /\ sol'[k].na = sol[k].na
                                       /\ (sol[k].mp # 0 => sol'[k].mp = sol[k].mp) /\ (sol[k].mF # 0 => sol'[k].mF = sol[k].mF)]_vars
(* what fails changes nothing *)
Whole == [][(Len(hist') > Len(hist) /\ MustFail(sol, hist'[Len(hist')])) => sol' = sol]_vars
Report == IF Emit = 1 /\ req # NoReq /\ (Len(hist) = MaxOps \/ sol = <<>>) THEN PrintT("BEH " \o ToJson([req |-> req, ops |-> hist])) ELSE TRUE
=============================================================================
