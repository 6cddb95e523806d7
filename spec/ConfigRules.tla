---------------------------- MODULE ConfigRules ----------------------------
(* Mistakes in the configuration of a run, and which of them are mistakes   *)
(* for a family of solvers and a way of running.                            *)
(*   fam: "c1" classic 1D Fortran, "v1" the same with auxiliary data,       *)
(*        "p1" classic 1D Python, "s1" SharpClaw 1D, "t1" SharpClaw 1D      *)
(*        Python, "c2", "v2", "s2", "v3" in two and three dimensions        *)
(*   route: "run" the controller, "evolve" the solver alone                 *)
EXTENDS Integers, Sequences, FiniteSets
Families == {"c1", "v1", "p1", "s1", "t1", "c2", "v2", "s2", "v3"}
Routes == {"run", "evolve"}
Sharp(f) == f \in {"s1", "s2", "t1"}
Python(f) == f \in {"p1", "t1"}
Multi(f) == f \in {"c2", "v2", "s2", "v3"}
AlwaysAux(f) == f \in {"v1", "v2", "v3"}
Params(f) == f \in {"c1", "s1", "c2", "s2"}   \* the Fortran Riemann solver requires parameters
OnlyRun == {"nosolver", "nosolution", "wrongsolver", "noeqn", "nofwave", "nocapa", "capaout", "mapnoaux", "style", "format", "formats", "exists"}
Mistakes == OnlyRun \cup {"nobclower", "nobcupper", "noauxbc", "nocustomlower", "nocustomupper", "nowaves", "noparam", "limiters",
                          "integrator", "kernel", "kernelmulti", "cfl", "lmmvar", "order"}
(* data: 1 if the run has auxiliary data *)
Applies(m, fam, route, aux) ==
  /\ m \in OnlyRun => route = "run"
  /\ CASE m = "noparam" -> Params(fam)
       [] m \in {"integrator", "lmmvar"} -> Sharp(fam)
       [] m = "order" -> fam = "t1"
       [] m = "kernelmulti" -> Multi(fam)
       [] m \in {"noauxbc", "nocapa", "capaout"} -> aux = 1
       [] m = "mapnoaux" -> aux = 0 /\ ~AlwaysAux(fam)
       [] OTHER -> TRUE
(* two mistakes about the same setting cannot be made together *)
Clash(a, b) == \/ {a, b} \subseteq {"nosolver", "wrongsolver"}
               \/ {a, b} \subseteq {"nobclower", "nocustomlower"} \/ {a, b} \subseteq {"nobcupper", "nocustomupper"}
               \/ {a, b} \subseteq {"nocapa", "capaout", "mapnoaux"} \/ {a, b} \subseteq {"kernel", "kernelmulti", "order"}
               \/ {a, b} \subseteq {"format", "formats"} \/ {a, b} \subseteq {"integrator", "lmmvar"}
               \/ {a, b} \subseteq {"lmmvar", "cfl"}
(* where the mistake is noticed: 1 at once, 2 before or while the solver is set up, 3 after that, 4 when choosing output times and formats,
   5 when the solver starts to advance *)
Stage(m, route) == CASE m \in {"nosolver", "nosolution", "exists"} -> 1
  [] m \in {"noeqn", "nofwave", "nocapa", "capaout", "mapnoaux", "wrongsolver"} -> 3
  [] m = "cfl" -> IF route = "run" THEN 3 ELSE 5
  [] m \in {"style", "format", "formats"} -> 4
  [] OTHER -> 2
=============================================================================
