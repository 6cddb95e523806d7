----------------------------- MODULE StoreTrace -----------------------------
(* Judges recorded histories of writing and reading frames (C15) and of     *)
(* reading damaged ones (C16).                                              *)
(* Solutions are numbered; a read event says which numbered solutions its   *)
(* time (t), patches (g), data (q), derived quantities (d), auxiliary       *)
(* values (a), problem parameters (pd) and mapping (mp) agree with.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES k, i, st
B(cond, name) == IF cond THEN {} ELSE {name}
InSeq(x, s) == \E j \in 1..Len(s) : s[j] = x
Family(f) == IF f = "hdf5" THEN "hdf5" ELSE "fort"
Key(e) == [fam |-> Family(e.fmt), pre |-> e.pre, fr |-> e.fr]
(* st.files: set of [key, fmt, s, der, aux]; st.aux: set of [key, fmt, s, sure] for the auxiliary files of text and binary frames *)
Init0(tr) == [files |-> {}, aux |-> {}]
At(s, key) == { f \in s.files : f.key = key }
AuxAt(s, key) == { f \in s.aux : f.key = key }
Na(tr, s) == tr.cfg.na[s]
(* which auxiliary values a read asking for them finds: 0: none *)
AuxOf(s, f) ==
  IF f.fmt = "hdf5" THEN { [s |-> f.s, sure |-> 1, fits |-> 1] : z \in IF f.aux = 1 THEN {1} ELSE {} }
  ELSE LET own == AuxAt(s, f.key) IN
       IF own # {} THEN { [s |-> x.s, sure |-> x.sure, fits |-> IF x.fmt = f.fmt THEN 1 ELSE 0] : x \in own }
       ELSE { [s |-> x.s, sure |-> 0, fits |-> IF x.fmt = f.fmt THEN 1 ELSE 0] : x \in AuxAt(s, [f.key EXCEPT !.fr = 0]) }
BadRead(tr, s, e) ==
  LET here == At(s, Key(e)) IN
  IF here = {} THEN B(e.ok = 0, "C16.absent")
  ELSE LET f == CHOOSE x \in here : TRUE
           na == Na(tr, f.s)
           au == IF e.aux = 1 /\ na > 0 THEN AuxOf(s, f) ELSE {}
           main == B(InSeq(f.s, e.t), "C15.time") \cup B(InSeq(f.s, e.g), "C15.patches")
                   \cup (IF f.der = 1 THEN B(InSeq(f.s, e.d), "C15.derived") ELSE B(InSeq(f.s, e.q), "C15.data"))
                   \cup B(e.na = na, "C15.numaux")
                   \cup (IF f.fmt = "ascii" THEN B(InSeq(f.s, e.pd), "C15.params") \cup B(InSeq(f.s, e.mp), "C15.mapping") ELSE {})
       IN IF au = {} THEN
            IF e.ok = 0 THEN {"C15.refused"} ELSE main \cup B(na = 0 \/ e.nan = 1, "C15.invented")
          ELSE LET a == CHOOSE x \in au : TRUE IN
            IF a.sure = 0     \* an auxiliary file of another frame or an earlier write: taken over if it fits, or refused
            THEN IF e.ok = 0 THEN B(a.fits = 0 \/ a.s # f.s, "C15.refused")
                 ELSE main \cup (IF a.fits = 1 /\ tr.cfg.geo[a.s] = tr.cfg.geo[f.s] /\ Na(tr, a.s) = na THEN B(InSeq(a.s, e.a), "C15.aux")
                                 ELSE {})
            ELSE IF e.ok = 0 THEN {"C15.refused"} ELSE main \cup B(InSeq(f.s, e.a), "C15.aux")
Bad(tr, s, e) ==
  CASE e.e = "crash" -> {"ALL.crash"}
    [] e.e = "write" -> B(e.ok = 1, "C15.write") \cup B(e.same = 1, "C15.changed")
    [] e.e = "rm" -> {}
    [] e.e = "read" -> BadRead(tr, s, e)
    [] e.e = "time" -> LET here == At(s, Key(e)) IN
                       IF here = {} THEN {} ELSE B(e.ok = 1, "C15.refused") \cup B(InSeq((CHOOSE x \in here : TRUE).s, e.t), "C15.time")
    (* a frame with its files cut: refused, or nothing of it was really missing *)
    [] e.e = "cut" -> B(e.out \in {"raised", "same"} \/ (e.out = "noaux" /\ e.gone = 1), "C16.partial")
    [] e.e = "crashed" -> B(e.out \in {"raised", "same"} \/ (e.out = "noaux" /\ e.gone = 1), "C16.interrupted")
    [] e.e = "whole" -> B(e.out = "same", "C15.whole")
    [] e.e = "tamper" -> B(e.out = "raised", "C16.inconsistent")
    [] OTHER -> {"ALL.unknownevent"}
After(tr, s, e) ==
  CASE e.e = "write" /\ e.ok = 1 ->
        LET key == Key(e)
            rec == [key |-> key, fmt |-> e.fmt, s |-> e.s, der |-> e.der, aux |-> IF e.aux = 1 /\ Na(tr, e.s) > 0 THEN 1 ELSE 0]
        IN [s EXCEPT !.files = (@ \ At(s, key)) \cup {rec},
                     !.aux = IF e.fmt = "hdf5" THEN @
                             ELSE IF rec.aux = 1 THEN (@ \ AuxAt(s, key)) \cup {[key |-> key, fmt |-> e.fmt, s |-> e.s, sure |-> 1]}
                             ELSE { IF x.key = key THEN [x EXCEPT !.sure = 0] ELSE x : x \in @ }]
    [] e.e = "rm" -> [s EXCEPT !.files = @ \ At(s, Key(e))]
    [] OTHER -> s
INSTANCE TraceBase
=============================================================================
