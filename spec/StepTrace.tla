----------------------------- MODULE StepTrace -----------------------------
(* Judges recorded executions of evolve_to_time against StepRules.  Clause  *)
(* names start with the property they belong to.                            *)
EXTENDS StepRules, TLC, Json, IOUtils
VARIABLES k, i, st

(* ph: 0 hook called, 1 first half of the source done, 2 boundary filled    *)
(* (waves propagated), 3 final source done; 9 no attempt under way          *)
Init0(tr) ==
  [t |-> 0, d |-> tr.cfg.dt0, started |-> FALSE, acc |-> TRUE, base |-> 0, n |-> 0, cm |-> -1, g |-> 0,
   q |-> 0, maxs |-> tr.cfg.maxs, op |-> "idle", tend |-> 0, tstart |-> 0, att |-> 0, accd |-> 0,
   ph |-> 9, qin |-> 0, cur |-> 0, sp |-> 0, fresh |-> TRUE, stg |-> 0, nbc |-> 0, srcdt |-> 0, prevrej |-> FALSE]

Sharp(tr) == tr.cfg.fam = "s"
HasSrc(tr) == tr.cfg.src = 1
First(tr) == IF HasSrc(tr) /\ tr.cfg.ss = 2 THEN 1 ELSE 0   \* phase in which the boundary is first filled

B(cond, name) == IF cond THEN {} ELSE {name}

(* ---- the attempt that ended before event e (a hook or the return) ------ *)
Open(s) == s.ph # 9
RuleBase(tr, s) == IF Sharp(tr) THEN (IF s.acc THEN s.sp ELSE s.base) ELSE s.base
ExpD(tr, s) == TruncDt(s.op = "one", s.t, s.tend, RuleDt(tr.cfg, s.started, RuleBase(tr, s), s.d))
Tot(tr, s) == IF Sharp(tr) THEN Max2(RuleBase(tr, s), s.stg) ELSE s.sp
(* at equality the method-of-lines solver decides on a rounded number       *)
Edge(tr, s, len) == Sharp(tr) /\ Tot(tr, s) * len = tr.cfg.cm
Kept(tr, s, e) == IF Edge(tr, s, e.dt) THEN e.n # s.n ELSE Fits(tr.cfg, Tot(tr, s), e.dt)

(* a fixed step that does not fit ends the call with an exception           *)
Dead(tr, s, e) == tr.cfg.variable = 0 /\ ~Kept(tr, s, e)

CloseBad(tr, s, e) ==
  IF ~Open(s) THEN B(e.t = s.t, "C01.timechanged") \cup B(e.q = s.q, "C01.datachanged") \cup B(e.n = s.n, "C03.count")
                   \cup B(e.cm = s.cm, "C03.cflmax") \cup B(e.g = s.g, "C07.count")
                   \cup B(e.dt = s.d, "C01.dtchanged")
  ELSE
  B(e.dt = ExpD(tr, s), "C03.length") \cup
  (IF s.ph < 2 /\ ~(Sharp(tr) /\ ~s.acc) THEN {"C04.hookwithoutstep"} ELSE {}) \cup
  (IF s.srcdt # 0 /\ s.srcdt # e.dt THEN {"C04.sourcelength"} ELSE {}) \cup
  (IF s.prevrej THEN B(e.dt < s.d, "C02.notshorter") ELSE {}) \cup
  IF Kept(tr, s, e)
  THEN B(e.t = s.t + e.dt, "C02.keptnot") \cup B(e.n = s.n + 1, "C03.count")
       \cup B(e.cm = Max2(s.cm, Tot(tr, s) * e.dt), "C03.cflmax") \cup B(e.ref = 1, "C02.keptdata")
       \cup B(e.g = s.g + tr.cfg.gauge, "C07.count")
       \cup (IF HasSrc(tr) THEN B(s.ph = 3, "C04.sourcemissing") \cup B(e.q = s.cur, "C04.sourcelost") ELSE {})
       \cup (IF Sharp(tr) /\ tr.cfg.each = 1 THEN B(s.nbc = Len(StageC(tr.cfg.ti)) - 1, "C04.stagecount") ELSE {})
  ELSE IF Dead(tr, s, e) THEN B(e.e = "ret" /\ e.raised = 1, "C02.fixedkept") \cup B(e.n = s.n, "C03.count")
  ELSE B(e.t = s.t, "C02.rejtime") \cup B(e.q = s.q, "C02.rejdata") \cup B(e.n = s.n, "C02.rejcount")
       \cup B(e.cm = s.cm, "C02.rejcflmax") \cup B(e.g = s.g, "C02.rejgauge")
       (* the same observations belong to the truthfulness of the status and of the gauge records *)
       \cup B(e.n = s.n, "C03.count") \cup B(e.cm = s.cm, "C03.cflmax") \cup B(e.g = s.g, "C07.count")

Close(tr, s, e) ==
  IF ~Open(s) THEN [s EXCEPT !.t = e.t, !.q = e.q, !.n = e.n, !.cm = e.cm, !.g = e.g, !.d = e.dt]
  ELSE [s EXCEPT !.t = e.t, !.q = e.q, !.n = e.n, !.cm = e.cm, !.g = e.g, !.d = e.dt, !.started = TRUE,
                 !.base = Tot(tr, s), !.acc = Kept(tr, s, e), !.att = @ + 1,
                 !.accd = @ + (IF Kept(tr, s, e) THEN 1 ELSE 0), !.ph = 9,
                 !.prevrej = ~Kept(tr, s, e)]

(* ---- result of a call --------------------------------------------------- *)
RetBad(tr, s0, s, e) ==
  B(e.maxs = s.maxs, "C01.limitchanged") \cup
  IF e.raised = 1
  THEN IF tr.cfg.variable = 1 THEN B(s.att >= s.maxs, "C01.raisedearly")
       ELSE B(~s.acc \/ (s.op = "to" /\ s.att = 0 /\ ((s.tend - s.t) < 0 \/ (s.tend - s.t) % s.d # 0)), "C01.raisedearly")
  ELSE IF s.op = "one"
       THEN B(s.accd = 1, "C01.onestep")
       ELSE B(s.t = Max2(s.tend, s.tstart), IF s.t < s.tend THEN "C01.short" ELSE "C01.beyond")
            \cup (IF s.tend <= s.tstart THEN B(s.att = 0, "C01.noop") ELSE {})
            \cup (IF tr.cfg.variable = 1 THEN B(s.accd <= s.maxs, "C01.limitignored") ELSE {})

(* ---- events -------------------------------------------------------------- *)
Bad(tr, s, e) ==
  CASE e.e = "call" -> IF s.started \/ s.op # "idle" \/ s.q # 0 THEN CloseBad(tr, [s EXCEPT !.ph = 9], e) ELSE {}
    [] e.e = "max" -> {}
    [] e.e = "hook" -> CloseBad(tr, s, e) \cup B(e.own = 1, "C04.hookargs")
                       \cup (IF tr.cfg.variable = 1 THEN LET z == Close(tr, s, e) IN
                                B(~(s.op = "to" /\ z.t >= s.tend), "C01.noop")
                                \cup B(~(s.op = "one" /\ z.accd >= 1), "C01.onestep")
                                \cup B(z.accd < s.maxs, "C01.limitignored")
                             ELSE {})
    [] e.e = "src" ->
         B(s.ph # 9, "C04.hookmissing") \cup B(e.q = s.cur \/ s.ph = 2, "C04.sourcedata") \cup
         (IF tr.cfg.ss = 2
          THEN B(e.len2 = e.dt, "C04.sourcelength") \cup B(s.ph \in {0, 2}, "C04.sourceorder")
          ELSE B(e.len2 = 2 * e.dt, "C04.sourcelength") \cup B(s.ph = 2, "C04.sourceorder"))
    [] e.e = "bc" ->
         IF Sharp(tr)
         THEN (IF s.ph = 5 \/ (s.ph = 0 /\ s.acc) THEN B(e.q = s.cur, "C04.boundarystale") ELSE {})
              \cup (IF s.ph = 0 /\ s.acc THEN B(e.t = 12 * s.t, "C04.boundarytime") ELSE {})
              \cup B(s.ph # 9, "C04.hookmissing")
              \cup (IF tr.cfg.each = 1 THEN B(s.ph = 5 \/ (s.ph = 0 /\ (s.acc \/ e.q = s.cur)), "C04.stagehookmissing") ELSE {})
         ELSE B(s.ph # 9, "C04.hookmissing") \cup B(s.ph \in {First(tr), 2}, "C04.sourceorder")
              \cup (IF s.ph < 2 THEN B(e.q = s.cur, "C04.boundarystale") ELSE {})
              \cup (IF s.ph < 2 THEN B(e.t = 12 * s.t, "C04.boundarytime") ELSE {})
    [] e.e = "stage" ->
         B(Sharp(tr) /\ tr.cfg.each = 1 /\ s.ph # 9, "C04.stageunasked") \cup
         LET len == ExpD(tr, s) C == StageC(tr.cfg.ti) IN
         (IF s.nbc + 2 <= Len(C) THEN B(e.t = 12 * s.t + C[s.nbc + 2] * len, "C04.stagetime") ELSE {"C04.stagecount"})
    [] e.e = "ret" -> CloseBad(tr, s, e) \cup RetBad(tr, s, Close(tr, s, e), e)
    [] e.e = "crash" -> {"ALL.crash"}
    [] OTHER -> {"ALL.unknownevent"}

After(tr, s, e) ==
  CASE e.e = "call" -> [s EXCEPT !.t = e.t, !.q = e.q, !.n = e.n, !.cm = e.cm, !.g = e.g, !.d = e.dt,
                                 !.op = e.op, !.tend = e.tend, !.att = 0, !.accd = 0, !.ph = 9, !.prevrej = FALSE, !.tstart = e.t]
    [] e.e = "max" -> [s EXCEPT !.maxs = e.n]
    [] e.e = "hook" -> LET z == Close(tr, s, e) IN
                       [z EXCEPT !.ph = 0, !.qin = e.q, !.cur = e.qo, !.sp = e.s, !.stg = 0, !.nbc = 0, !.srcdt = 0]
    [] e.e = "src" -> [s EXCEPT !.cur = e.qo, !.srcdt = e.dt, !.ph = IF s.ph = 0 THEN 1 ELSE IF s.ph = 9 THEN 9 ELSE 3]
    [] e.e = "bc" -> [s EXCEPT !.ph = IF s.ph = 9 THEN 9 ELSE 2]
    [] e.e = "stage" -> [s EXCEPT !.ph = IF s.ph = 9 THEN 9 ELSE 5, !.cur = e.qo, !.stg = Max2(@, e.s), !.nbc = @ + 1]
    [] e.e = "ret" -> [Close(tr, s, e) EXCEPT !.op = "idle"]
    [] OTHER -> s

INSTANCE TraceBase
=============================================================================
