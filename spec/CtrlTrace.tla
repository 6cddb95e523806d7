----------------------------- MODULE CtrlTrace -----------------------------
(* Judges recorded controller runs.  States are numbered over all runs in   *)
(* the order in which they were reached; e.st holds their times; frames and *)
(* gauge records are matched to the states whose data they hold.            *)
EXTENDS CtrlRules, TLC, Json, IOUtils, FiniteSets
VARIABLES k, i, st

OFFT == -2147483000
Init0(tr) == [start |-> tr.cfg.restart, mem |-> <<>>, disk |-> <<>>, aux |-> <<>>, glen |-> 0]
B(cond, name) == IF cond THEN {} ELSE {name}
InSeq(x, s) == \E j \in 1..Len(s) : s[j] = x
Put(f, key, v) == [x \in (DOMAIN f) \cup {key} |-> IF x = key THEN v ELSE f[x]]

Writes(tr) == Len(tr.cfg.fmts) > 0
(* last state of the run whose time is not beyond x, i.e. the state a frame *)
(* asked for at time x must hold (several states can share a time only when *)
(* no step lies between)                                                    *)
StateAt(e, x) == { s \in e.first..e.last : e.st[s] = x }

(* the states (a set for each frame) the frames of the run must hold        *)
Exp(tr, s, e) ==
  IF e.style = 3 THEN [j \in 1..(e.nout + 1 - s.start) |-> {e.first + (j - 1) * e.nstep} \cap (e.first..e.last)]
  ELSE LET ot == OutTimes(e, e.t0) IN [j \in 1..Len(ot) |-> IF j = 1 THEN {e.first} ELSE StateAt(e, ot[j])]
ExpT(tr, s, e, j) == IF e.style = 3 THEN e.st[e.first + (j - 1) * e.nstep] ELSE OutTimes(e, e.t0)[j]

AuxWritten(tr, j) == tr.cfg.naux > 0 /\ (tr.cfg.auxalways = 1 \/ (tr.cfg.auxinit = 1 /\ j = 1))

(* what is in the output directory after the run: number -> <<states, aux?>> *)
RECURSIVE NewDisk(_,_,_,_,_)
NewDisk(tr, s, ex, d, j) ==
  IF j > Len(ex) THEN d
  ELSE NewDisk(tr, s, ex, Put(d, s.start + j - 1, <<ex[j], AuxWritten(tr, j)>>), j + 1)

Refused(tr, e) == MustRefuse(e, Writes(tr), e.existed = 1)

MemBad(tr, s, e, ex) ==
  LET m0 == s.mem
      want == IF tr.cfg.keep = 1 THEN m0 \o ex ELSE m0 IN
  B(Len(e.mem) = Len(want), "C05.memcount") \cup
  UNION { B(\E x \in want[j] : InSeq(x, e.mem[j].m), IF j <= Len(m0) THEN "C06.framechanged" ELSE "C05.memdata")
          \cup B(want[j] # {} => (\E x \in want[j] : e.mem[j].t = e.st[x]), IF j <= Len(m0) THEN "C06.framechanged" ELSE "C05.memtime")
          \cup B(tr.cfg.naux > 0 => (\E x \in want[j] : InSeq(x, e.mem[j].am)), "C06.frameaux")
          \cup B(e.mem[j].capa = 1 /\ e.mem[j].pd = 1, "C06.framemeta")
          : j \in 1..(IF Len(e.mem) < Len(want) THEN Len(e.mem) ELSE Len(want)) }

TimesBad(tr, s, e, ex) ==
  UNION { B(ex[j] # {}, "C05.framemissed") : j \in 1..Len(ex) } \cup
  (IF e.style = 3 THEN B(e.last = e.first + (IF Len(ex) > 1 THEN (Len(ex) - 1) * e.nstep ELSE 0), "C05.stepsperframe")
   ELSE B(e.st[e.last] = OutTimes(e, e.t0)[Len(ex)], "C05.endtime"))

(* (the text format falls back on the auxiliary file of frame 0)            *)
(* fr: frames found of one format; want: number -> <<states, aux?>>         *)
FormatBad(tr, e, fr, want, fmt, aux, pre) ==
  B({ fr[j].num : j \in 1..Len(fr) } = DOMAIN want, pre \o "numbers") \cup
  UNION { LET w == want[fr[j].num] IN
          B(\E x \in w[1] : InSeq(x, fr[j].m), pre \o "data") \cup
          B(\E x \in w[1] : fr[j].t = e.st[x], pre \o "time") \cup
          (IF ~aux THEN {} ELSE
           LET src == IF w[2] THEN w[1] ELSE IF fmt = "ascii" /\ 0 \in DOMAIN want /\ want[0][2] THEN want[0][1] ELSE {} IN
           IF src # {} THEN B(\E x \in src : InSeq(x, fr[j].am), pre \o "aux") ELSE B(fr[j].am = <<>>, pre \o "auxinvented"))
          : j \in { jj \in 1..Len(fr) : fr[jj].num \in DOMAIN want } }

FBad(tr, e, ex) ==
  IF tr.cfg.F = 0 THEN {}
  ELSE B(Len(e.F) = Len(ex), "C05.functionalcount") \cup
       UNION { B(\E x \in ex[j] : InSeq(x, e.F[j].m) /\ e.F[j].t = e.st[x], "C05.functional")
               : j \in 1..(IF Len(e.F) < Len(ex) THEN Len(e.F) ELSE Len(ex)) }

(* ---- gauges; positions in quarters of a cell ----------------------------- *)
Inside(tr, p) == \A d \in 1..Len(p) : p[d] >= 0 /\ p[d] < 4 * tr.cfg.ncell[d]
CellNo(tr, p) == CASE Len(p) = 1 -> p[1] \div 4 + 1
                   [] Len(p) = 2 -> (p[1] \div 4) * tr.cfg.ncell[2] + p[2] \div 4 + 1
                   [] Len(p) = 3 -> ((p[1] \div 4) * tr.cfg.ncell[2] + p[2] \div 4) * tr.cfg.ncell[3] + p[3] \div 4 + 1
GBad(tr, s, e) ==
  LET ins == SelectSeq(tr.cfg.gauges, LAMBDA p : Inside(tr, p))
      n == e.last - e.first + 1 IN
  IF Len(tr.cfg.gauges) = 0 THEN {}
  ELSE B(Len(e.gauges) = Len(ins), "C07.gaugecount") \cup
  UNION { LET g == e.gauges[j]
              c == CellNo(tr, ins[j]) IN
          B(Len(g.file) = n, "C07.lines") \cup
          B(g.memlen = s.glen + n, "C07.memlines") \cup
          B(g.mem = g.file, "C07.memdiffers") \cup
          UNION { B(g.file[x].t = e.st[e.first + x - 1], "C07.time") \cup
                  B(g.file[x].v = e.cells[x][c], "C07.value")
                  : x \in 1..(IF Len(g.file) < n THEN Len(g.file) ELSE n) }
          : j \in 1..(IF Len(e.gauges) < Len(ins) THEN Len(e.gauges) ELSE Len(ins)) }

Bad(tr, s, e) ==
  CASE e.e = "crash" -> {"ALL.crash"}
    [] e.e = "run" ->
       IF Refused(tr, e) THEN B(e.raised = 1, "C05.notrefused") \cup B(e.raised = 1 => e.intact = 1, "C05.refusedlate")
       ELSE IF e.raised = 1 THEN {"C05.runfailed", "C07.runfailed"}
       ELSE LET ex == Exp(tr, s, e)
                nd == NewDisk(tr, s, ex, s.disk, 1) IN
            TimesBad(tr, s, e, ex) \cup MemBad(tr, s, e, ex) \cup
            (IF Writes(tr)
             THEN UNION { FormatBad(tr, e, e.disk[j].frames, nd, e.disk[j].fmt, TRUE, "C05.file") : j \in 1..Len(e.disk) } \cup
                  UNION { FormatBad(tr, e, e.p[j].frames, nd, e.p[j].fmt, FALSE, "C05.derived") : j \in 1..Len(e.p) } \cup
                  FBad(tr, e, ex)
             ELSE B(e.nofiles = 1, "C05.unaskedoutput")) \cup
            GBad(tr, s, e) \cup
            B(e.status = e.last - e.first, "C03.count")
    [] OTHER -> {"ALL.unknownevent"}

After(tr, s, e) ==
  IF e.e # "run" \/ e.raised = 1 \/ Refused(tr, e) THEN s
  ELSE LET ex == Exp(tr, s, e)
           m == IF tr.cfg.keep = 1 THEN s.mem \o ex ELSE s.mem IN
       [s EXCEPT !.mem = m, !.disk = NewDisk(tr, s, ex, @, 1), !.start = Len(m),
                 !.glen = @ + e.last - e.first + 1]

INSTANCE TraceBase
=============================================================================
