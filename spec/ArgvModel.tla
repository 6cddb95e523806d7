------------------------------ MODULE ArgvModel ------------------------------
(* The command line is consumed token by token; what the application is     *)
(* given at the end is what ArgvRules says of the whole line.               *)
EXTENDS ArgvRules, FiniteSets, TLC, Json
CONSTANTS Names, MaxTok, Few, Emit
VARIABLES line, kw
vars == <<line, kw>>
VIdx == IF Few = 0 THEN 1..Len(Lex) ELSE { j \in 1..Len(Lex) : j % Few = 1 }
Init == line = <<>> /\ kw = {}
Take(f, k, x) ==
  /\ Len(line) < MaxTok
  /\ line' = Append(line, [f |-> f, k |-> k, v |-> x])
  /\ kw' = IF f = "kv" THEN { p \in kw : p[1] # k } \cup {<<k, x>>} ELSE kw
Next == \E f \in {"kv", "pos", "two"}, k \in Names, x \in VIdx : Take(f, k, x)
R(S) == RandomElement({ z \in S : Len(line) >= 0 })
NextSim == \/ Take("kv", R(Names), R(VIdx)) \/ Take("kv", R(Names), R(VIdx)) \/ Take("pos", R(Names), R(VIdx)) \/ Take("two", R(Names), R(VIdx))
           \/ Take("kv", R({"outdir", "htmlplot", "iplot"}), R(VIdx))
Spec == Init /\ [][Next]_vars
SpecSim == Init /\ [][NextSim]_vars
(* token by token and as a whole *)
Whole == ForApp(line) = { <<p[1], Lex[p[2]].val>> : p \in { z \in kw : z[1] \notin Plotting } }
(* each parameter has one value; others' values do not matter to it *)
Function == \A p, q \in ForApp(line) : p[1] = q[1] => p = q
Local == \A k \in Keys(line) : LET own == SelectSeq(line, LAMBDA x : x.k = k) IN ForApp(own) \subseteq ForApp(line)
Report == IF Emit = 1 /\ Len(line) = MaxTok THEN PrintT("BEH " \o ToJson(line)) ELSE TRUE
=============================================================================
