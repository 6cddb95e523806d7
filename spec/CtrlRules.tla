----------------------------- MODULE CtrlRules -----------------------------
(* Rules of a controller run, times in ticks.                               *)
EXTENDS Integers, Sequences

(* the times of the frames of a run of style 1 or 2, the initial one first  *)
OutTimes(r, t0) ==
  CASE r.style = 1 -> [j \in 1..(r.nout + 1) |-> t0 + ((j - 1) * (r.tfinal - t0)) \div r.nout]
    [] r.style = 2 -> [j \in 1..Len(r.times) |-> IF j = 1 THEN t0 ELSE r.times[j]]
    [] OTHER -> <<t0>>

NFrames(r, t0, start) == IF r.style = 3 THEN r.nout + 1 - start ELSE Len(OutTimes(r, t0))

(* a run must be refused when it would write into an existing directory     *)
(* that it may not overwrite                                                *)
MustRefuse(r, writes, exists) == writes /\ r.overwrite = 0 /\ exists
=============================================================================
