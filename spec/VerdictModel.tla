---------------------------- MODULE VerdictModel ----------------------------
(* A regression session: the variants of an application (one per kernel     *)
(* language) are run, either at once, stopping at the first failure         *)
(* ("batch"), or one by one through a generator ("lazy": each as soon as it *)
(* is made; "list": all are made first, then run in any order).             *)
EXTENDS VerdictRules, FiniteSets, TLC, Json
CONSTANTS Langs, Vals, Ms, Ws, Lens, MaxVar, Emit
VARIABLES mode, vars_, made, log, res
v == <<mode, vars_, made, log, res>>
Outs == {"same", "differs", "crash"}
Perms(S) == { f \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => f[a] # f[b] }
Orders == UNION { Perms(S) : S \in (SUBSET Langs) \ {{}} }
Init == /\ mode \in {"batch", "lazy", "list"}
        /\ \E o \in Orders : Len(o) <= MaxVar /\ vars_ \in [1..Len(o) -> { <<l, x>> : l \in Langs, x \in Outs }]
             /\ \A j \in 1..Len(o) : vars_[j][1] = o[j]
        /\ made = 0 /\ log = <<>> /\ res = <<>>
Failed == \E j \in 1..Len(res) : res[j][2] # "ok"
RunOf(j) == /\ log' = log \o [s \in 1..Len(Steps(vars_[j][2])) |-> << vars_[j][1], Steps(vars_[j][2])[s] >>]
            /\ res' = Append(res, << vars_[j][1], Word(vars_[j][2]) >>)
Done(j) == \E r \in 1..Len(res) : res[r][1] = vars_[j][1]
Batch == mode = "batch" /\ ~Failed /\ Len(res) < Len(vars_) /\ RunOf(Len(res) + 1) /\ UNCHANGED <<mode, vars_, made>>
Make == mode # "batch" /\ made < Len(vars_) /\ (mode = "lazy" => Len(res) = made) /\ made' = made + 1 /\ UNCHANGED <<mode, vars_, log, res>>
One == /\ mode # "batch" /\ (mode = "list" => made = Len(vars_))
       /\ \E j \in 1..made : ~Done(j) /\ RunOf(j) /\ UNCHANGED <<mode, vars_, made>>
Next == Batch \/ Make \/ One
Spec == Init /\ [][Next]_v
(* no variant runs twice, and none runs with the parameters of another *)
Once == \A a, b \in 1..Len(res) : a # b => res[a][1] # res[b][1]
Own == \A r \in 1..Len(res) : \E j \in 1..Len(vars_) : vars_[j][1] = res[r][1] /\ Word(vars_[j][2]) = res[r][2]
(* a session that ends without a failure has run everything, and everything agreed *)
Ended == ~ENABLED Next
Sound == (Ended /\ ~Failed) => /\ Len(res) = Len(vars_)
                               /\ \A j \in 1..Len(vars_) : vars_[j][2] = "same"
Complete == (Ended /\ \E j \in 1..Len(vars_) : vars_[j][2] # "same") => Failed
(* the decision itself *)
Data == UNION { [1..n -> Vals] : n \in Lens }
Laws == \A x, y \in Data : Len(x) = Len(y) =>
  /\ \A w \in Ws, m \in Ms :
       /\ Accept("abs", x, y, w, m) = Accept("abs", y, x, w, m)
       /\ (Accept("abs", x, y, w, m) => Accept("abs", x, y, w, m + 1))
       /\ (Accept("rel", x, y, w, m) => Accept("rel", x, y, w, m + 1))
       /\ (Clean(x) /\ m > 0 => Accept("abs", x, x, w, m))
       /\ (Clean(x) /\ m > 0 /\ Sq(x) > 0 => Accept("rel", x, x, w, m))
       /\ (~Clean(x) => ~Accept("abs", x, y, w, m) /\ ~Accept("rel", x, y, w, m))
       /\ (w > 1 /\ Accept("abs", x, y, w, m) => Accept("abs", x, y, 1, m))
  /\ (Clean(x) /\ Clean(y) /\ x # y => \E m \in Ms : ~Accept("abs", x, y, 1, m))
ASSUME Laws
Report == IF Emit = 1 /\ Ended THEN PrintT("BEH " \o ToJson([mode |-> mode, vars |-> vars_, order |-> [r \in 1..Len(res) |-> res[r][1]]])) ELSE TRUE
=============================================================================
