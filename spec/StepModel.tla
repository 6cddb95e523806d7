----------------------------- MODULE StepModel -----------------------------
(* Design of evolve_to_time: a solver is called again and again with end    *)
(* times or for single steps; every attempted step meets arbitrary wave     *)
(* speeds (the environment's choice) and is kept or rejected.               *)
EXTENDS StepRules, TLC, Json
CONSTANTS Speeds, StageSpeeds, Ends, Dt0s, DtMaxs, Maxs, CDs, CM, NCalls, Horizon, Emit

VARIABLES
  c,        \* configuration: fam, variable, cm, cd, dtmax, dt0, maxs
  t, d,     \* time; length used last
  started, acc, base,
  n, cm,    \* accepted steps; largest accepted Courant number
  data,     \* abstract data: the sequence of kept <<time, length>> pairs would be unbounded; a version number
  ver,      \* version handed out so far (rejected data never reappear)
  call,     \* "idle", "to" or "one"
  tend, tstart, att, accd, \* of the current call
  calls, outcome,
  t0, data0,
  hist, rows
vars == <<c, t, d, started, acc, base, n, cm, data, ver, call, tend, tstart, att, accd, calls, outcome, t0, data0, hist, rows>>
view == <<c, t, d, started, acc, base, n, cm, data = ver, call, tend, tstart, att, accd, calls, outcome, t0, data0 = data>>

Init ==
  /\ c \in [fam : {"c", "s"}, variable : {0, 1}, cm : {CM}, cd : CDs, dtmax : DtMaxs, dt0 : Dt0s, maxs : Maxs]
  /\ t = 0 /\ d = c.dt0 /\ started = FALSE /\ acc = TRUE /\ base = 0
  /\ n = 0 /\ cm = -1 /\ data = 0 /\ ver = 0
  /\ call = "idle" /\ tend = 0 /\ tstart = 0 /\ att = 0 /\ accd = 0
  /\ calls = 0 /\ outcome = "none" /\ t0 = 0 /\ data0 = 0
  /\ hist = <<>> /\ rows = <<>>

Begin ==
  /\ call = "idle" /\ calls < NCalls /\ outcome # "dead" /\ t < Horizon
  /\ \/ /\ call' = "to" /\ tend' \in { t + e : e \in Ends } \cup {t, t - 1}
        /\ (c.variable = 1 \/ (tend' >= t /\ (tend' - t) % d = 0))
     \/ /\ call' = "one" /\ tend' = 0
  /\ tstart' = t /\ att' = 0 /\ accd' = 0 /\ calls' = calls + 1
  /\ t0' = t /\ data0' = data /\ outcome' = "running"
  /\ hist' = Append(hist, [op |-> call', tend |-> tend'])
  /\ UNCHANGED <<c, t, d, started, acc, base, n, cm, data, ver, rows>>

Done == IF call = "one" THEN accd >= 1 ELSE t >= tend
Finish(o) == /\ call' = "idle" /\ outcome' = o
             /\ UNCHANGED <<c, t, d, started, acc, base, n, cm, data, ver, tend, tstart, att, accd, calls, t0, data0, hist, rows>>

Return == call # "idle" /\ Done /\ Finish("ok")
(* the step limit is per call; it never makes a call return short           *)
GiveUp == call # "idle" /\ ~Done /\ c.variable = 1 /\ att >= c.maxs /\ Finish("limit")

Attempt(s, g) ==
  /\ call # "idle" /\ ~Done
  /\ (c.variable = 1 => att < c.maxs)
  /\ LET one == call = "one"
         sb == IF c.fam = "s" /\ acc THEN s ELSE base       \* speed the rule uses
         len == TruncDt(one, t, tend, RuleDt(c, started, sb, d))
         tot == IF c.fam = "s" THEN Max2(sb, g) ELSE s
         ok == Fits(c, tot, len)
     IN /\ started' = TRUE /\ d' = len /\ base' = tot /\ att' = att + 1
        /\ acc' = ok
        /\ ver' = ver + 1
        /\ rows' = Append(rows, <<s, g>>)
        /\ IF ok THEN /\ t' = t + len /\ n' = n + 1 /\ cm' = Max2(cm, tot * len)
                      /\ data' = ver' /\ accd' = accd + 1 /\ UNCHANGED <<call, outcome>>
           ELSE /\ UNCHANGED <<t, n, cm, data, accd>>
                /\ IF c.variable = 1 THEN UNCHANGED <<call, outcome>>
                   ELSE call' = "idle" /\ outcome' = "dead"
  /\ UNCHANGED <<c, tend, tstart, calls, t0, data0, hist>>

Emitted == calls = NCalls /\ call = "idle" /\ Emit
EmitB == /\ Emitted /\ calls' = calls + 1
         /\ PrintT("BEH " \o ToJson([c |-> c, ops |-> hist, rows |-> rows]))
         /\ UNCHANGED <<c, t, d, started, acc, base, n, cm, data, ver, call, tend, tstart, att, accd, outcome, t0, data0, hist, rows>>

Next == Begin \/ Return \/ GiveUp \/ EmitB \/ \E s \in Speeds, g \in StageSpeeds : Attempt(s, g)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
TypeOK == t >= 0 /\ n >= 0 /\ d >= 0
(* C01 *)
ReachesEnd == outcome = "ok" => \/ (Len(hist) > 0 /\ hist[Len(hist)].op = "to" /\ t = Max2(tend, t0))
                                \/ (Len(hist) > 0 /\ hist[Len(hist)].op = "one" /\ accd = 1)
NeverBeyond == (call = "to" /\ tend > t0) => t <= tend
NoopBackward == (outcome = "ok" /\ Len(hist) > 0 /\ hist[Len(hist)].op = "to" /\ tend <= t0) => t = t0 /\ data = data0 /\ att = 0
PerCallLimit == (c.variable = 1) => att <= c.maxs
(* C02 *)
KeptWithin == cm <= CM
RejectedAreShortened == [][ (att' = att + 1 /\ att > 0 /\ ~acc /\ c.variable = 1) => d' < d ]_vars
RejectedLeaveNoTrace == [][ (att' = att + 1 /\ ~acc') => (t' = t /\ data' = data /\ n' = n /\ cm' = cm) ]_vars
(* C03: every variable step is within the maximum length *)
MaxRespected == [][ (att' = att + 1 /\ started /\ c.variable = 1) => d' <= c.dtmax ]_vars
TruthfulCount == [][ (n' # n) => (n' = n + 1 /\ acc') ]_vars
(* positive progress: an attempted step always has positive length *)
Progress == [][ (att' = att + 1) => d' > 0 ]_vars
=============================================================================
