---------------------------- MODULE ConfigModel ----------------------------
(* Runs with up to MaxBad mistakes in their configuration.  A run passes    *)
(* through its stages; at each one it notices the mistakes of that stage.   *)
(* Files are written from stage 6 on (gauges, first frame), data change at  *)
(* stage 7.                                                                 *)
EXTENDS ConfigRules, FiniteSetsExt, TLC, Json
CONSTANTS Fams, MaxBad, Emit
VARIABLES fam, route, aux, bad, stage, refused, files, data
vars == <<fam, route, aux, bad, stage, refused, files, data>>
Init == /\ fam \in Fams /\ route \in Routes /\ aux \in (IF AlwaysAux(fam) THEN {1} ELSE {0, 1})
        /\ LET here == { m \in Mistakes : Applies(m, fam, route, aux) } IN bad \in UNION { kSubset(n, here) : n \in 0..MaxBad }
        /\ \A a, b \in bad : a # b => ~Clash(a, b)
        /\ stage = 1 /\ refused = FALSE /\ files = 0 /\ data = 0
Step == /\ ~refused /\ stage < 8
        /\ IF \E m \in bad : Stage(m, route) = stage
           THEN refused' = TRUE /\ UNCHANGED <<stage, files, data>>
           ELSE /\ stage' = stage + 1 /\ refused' = FALSE
                /\ files' = IF stage = 6 /\ route = "run" THEN 1 ELSE files
                /\ data' = IF stage = 7 THEN 1 ELSE data
        /\ UNCHANGED <<fam, route, aux, bad>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Untouched == refused => files = 0 /\ data = 0
Justified == refused => bad # {}
Decided == <>(IF bad = {} THEN stage = 8 /\ data = 1 ELSE refused)
Report == IF Emit = 1 /\ stage = 1 THEN PrintT("BEH " \o ToJson([fam |-> fam, route |-> route, aux |-> aux, bad |-> bad])) ELSE TRUE
=============================================================================
