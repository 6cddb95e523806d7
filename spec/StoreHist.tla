----------------------------- MODULE StoreHist -----------------------------
(* Histories of whole operations on one directory: writes in the text and   *)
(* HDF5 formats (and frames left there by other programs in the binary      *)
(* format) under several prefixes and frame numbers, removals, and reads.   *)
(* Printed behaviours are replayed against the real code.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NSols, NPre, NFrames, Fmts, Len0, Emit
VARIABLES dir, hist
vars == <<dir, hist>>
(* dir: set of [fmt, pre, fr] present; text and binary frames share file names, so one replaces the other *)
Family(f) == IF f = "hdf5" THEN "hdf5" ELSE "fort"
Keys == { [fam |-> Family(f), pre |-> p, fr |-> x] : f \in Fmts, p \in 1..NPre, x \in 0..(NFrames - 1) }
Init == dir = {} /\ hist = <<>>
More == Len(hist) < Len0
Write(f, p, x, s, aux, der) ==
  /\ More /\ Len(hist) % 7 \in {0, 1, 2, 4}
  /\ der = 1 => f # "binary"
  /\ dir' = { d \in dir : d.key # [fam |-> Family(f), pre |-> p, fr |-> x] }
            \cup { [key |-> [fam |-> Family(f), pre |-> p, fr |-> x], fmt |-> f] }
  /\ hist' = Append(hist, [op |-> "write", fmt |-> f, pre |-> p, fr |-> x, s |-> s, aux |-> aux, der |-> der, into |-> 0])
Read(f, p, x, aux, into) ==
  /\ More /\ Len(hist) % 7 \in {2, 3, 5, 6}
  /\ \A d \in dir : d.key = [fam |-> Family(f), pre |-> p, fr |-> x] => d.fmt = f
  /\ dir # {}
  /\ (\A d \in dir : d.key # [fam |-> Family(f), pre |-> p, fr |-> x]) => Len(hist) % 7 = 5      \* now and then, a frame that is not there
  /\ hist' = Append(hist, [op |-> "read", fmt |-> f, pre |-> p, fr |-> x, s |-> 0, aux |-> aux, der |-> 0, into |-> into])
  /\ dir' = dir
Remove(d, part) ==
  /\ More
  /\ Len(hist) % 7 = 6
  /\ hist' = Append(hist, [op |-> "rm", fmt |-> d.fmt, pre |-> d.key.pre, fr |-> d.key.fr, s |-> part, aux |-> 0, der |-> 0, into |-> 0])
  /\ dir' = dir \ {d}
Over == Len(hist) = Len0
Next == \/ \E f \in Fmts, p \in 1..NPre, x \in 0..(NFrames - 1), s \in 1..NSols, a \in 0..1, der \in 0..1 : Write(f, p, x, s, a, der)
        \/ \E f \in Fmts, p \in 1..NPre, x \in 0..(NFrames - 1), a \in 0..1, into \in 0..NSols : Read(f, p, x, a, into)
        \/ \E d \in dir, part \in 0..2 : Remove(d, part)
Spec == Init /\ [][Next]_vars
OneFormat == \A d, e \in dir : d.key = e.key => d = e
Report == (Emit = 1 /\ Over) => PrintT("BEH " \o ToJson(hist))
=============================================================================
