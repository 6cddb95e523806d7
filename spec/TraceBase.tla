---------------------------- MODULE TraceBase ----------------------------
(* Generic, total judge of recorded executions.  A trace is a record with   *)
(* fields id, cfg and ev (a sequence of event records).  The instantiating  *)
(* module supplies the specification state of a trace at its start (Init0), *)
(* the set of names of the clauses an event breaks (Bad) and the            *)
(* specification state after the event (After; it re-synchronises with the  *)
(* observation where a clause was broken so that the rest of the trace is   *)
(* still judged).  Every broken clause is printed; nothing stops the run.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Init0(_), Bad(_,_,_), After(_,_,_)
VARIABLES k, i, st

(* after these the specification state means nothing any more *)
Fatal == {"ALL.offtick", "ALL.crash", "ALL.unknownevent"}

(* the file is parsed once, in the initial state, and kept in a TLC register *)
Traces == TLCGet(77)

TInit == /\ TLCSet(77, JsonDeserialize(IOEnv.TRACE_FILE))
         /\ k = 1 /\ i = 1
         /\ st = IF Len(Traces) > 0 THEN Init0(Traces[1]) ELSE 0

TNext ==
  /\ k <= Len(Traces)
  /\ LET tr == Traces[k] IN
     IF i > Len(tr.ev)
     THEN /\ k' = k + 1 /\ i' = 1
          /\ st' = IF k + 1 <= Len(Traces) THEN Init0(Traces[k+1]) ELSE 0
          /\ IF k + 1 <= Len(Traces) THEN TRUE ELSE PrintT("DONE " \o ToString(Len(Traces)))
     ELSE LET e == tr.ev[i]
              bad == Bad(tr, st, e) IN
          /\ IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([id |-> tr.id, line |-> i, bad |-> bad]))
          /\ IF bad \cap Fatal # {} THEN st' = st /\ i' = Len(tr.ev) + 1
             ELSE st' = After(tr, st, e) /\ i' = i + 1
          /\ k' = k

TSpec == TInit /\ [][TNext]_<<k, i, st>>
==========================================================================
