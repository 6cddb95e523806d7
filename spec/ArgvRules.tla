------------------------------ MODULE ArgvRules ------------------------------
(* The meaning of the command line of an application: key=value gives the   *)
(* parameter key the value, read as JSON where it is JSON, True and False   *)
(* as truth values, anything else as text.  A later value of a key replaces *)
(* an earlier one.  Everything that is not of the form key=value is not for *)
(* the application.  htmlplot and iplot ask for plots of outdir after the   *)
(* run and are not for the application either.                              *)
EXTENDS Integers, Sequences
Lex == << [x |-> "12", val |-> "int 12", yes |-> TRUE], [x |-> "-3", val |-> "int -3", yes |-> TRUE],
          [x |-> "0", val |-> "int 0", yes |-> FALSE], [x |-> "1", val |-> "int 1", yes |-> TRUE],
          [x |-> "2.5", val |-> "float 2.5", yes |-> TRUE], [x |-> "1e3", val |-> "float 1000.0", yes |-> TRUE],
          [x |-> "-0.125", val |-> "float -0.125", yes |-> TRUE], [x |-> "1E-2", val |-> "float 0.01", yes |-> TRUE],
          [x |-> "True", val |-> "bool True", yes |-> TRUE], [x |-> "False", val |-> "bool False", yes |-> FALSE],
          [x |-> "true", val |-> "bool True", yes |-> TRUE], [x |-> "false", val |-> "bool False", yes |-> FALSE],
          [x |-> "null", val |-> "none", yes |-> FALSE], [x |-> "TRUE", val |-> "str TRUE", yes |-> TRUE],
          [x |-> "abc", val |-> "str abc", yes |-> TRUE], [x |-> "None", val |-> "str None", yes |-> TRUE],
          [x |-> "\"12\"", val |-> "str 12", yes |-> TRUE], [x |-> "", val |-> "str ", yes |-> FALSE],
          [x |-> "[1, 2.5, \"x\", null]", val |-> "list [1, 2.5, \"x\", null]", yes |-> TRUE],
          [x |-> "{\"a\": [true]}", val |-> "dict {\"a\": [true]}", yes |-> TRUE],
          [x |-> "[1, 2", val |-> "str [1, 2", yes |-> TRUE], [x |-> "007", val |-> "str 007", yes |-> TRUE],
          [x |-> "1d3", val |-> "str 1d3", yes |-> TRUE], [x |-> "./out/x y", val |-> "str ./out/x y", yes |-> TRUE],
          [x |-> "--flag", val |-> "str --flag", yes |-> TRUE], [x |-> " 5 ", val |-> "int 5", yes |-> TRUE],
          [x |-> "123456789012345678901", val |-> "int 123456789012345678901", yes |-> TRUE] >>
Plotting == {"htmlplot", "iplot"}
(* a token: f is "kv" (key=value), "pos" (value alone), "two" (key=value=value) *)
Keys(ts) == { ts[j].k : j \in { n \in 1..Len(ts) : ts[n].f = "kv" } }
Last(ts, k) == CHOOSE j \in 1..Len(ts) : ts[j].f = "kv" /\ ts[j].k = k /\ \A n \in (j+1)..Len(ts) : ~(ts[n].f = "kv" /\ ts[n].k = k)
Value(ts, k) == Lex[ts[Last(ts, k)].v]
ForApp(ts) == { <<k, Value(ts, k).val>> : k \in Keys(ts) \ Plotting }
Wanted(ts, k) == k \in Keys(ts) /\ Value(ts, k).yes
OutDir(ts) == IF "outdir" \in Keys(ts) THEN Value(ts, "outdir").val ELSE "str ./_output"
Plots(ts) == (IF Wanted(ts, "htmlplot") THEN <<[kind |-> "html", dir |-> OutDir(ts)]>> ELSE <<>>)
          \o (IF Wanted(ts, "iplot") THEN <<[kind |-> "inter", dir |-> OutDir(ts)]>> ELSE <<>>)
=============================================================================
