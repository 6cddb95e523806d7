----------------------------- MODULE CtrlModel -----------------------------
(* Design of Controller.run: one controller is run again and again; every   *)
(* run starts from the state the previous one left.  The environment (the   *)
(* solver) chooses how many accepted steps it takes to reach a frame.       *)
EXTENDS CtrlRules, TLC, Json, FiniteSets
CONSTANTS NRuns, Touts, Nouts, Nsteps, StepChoices, Restarts, Emit

VARIABLES
  cfg,      \* keep, writes, gauge, restart: fixed per controller
  t, ver,   \* time and version of the data
  vt,       \* times of all versions
  mem,      \* versions kept in memory
  disk,     \* frame number -> version (a function with growing domain)
  exists,   \* output directory is there
  start,    \* start frame of the solution
  glog,     \* versions recorded at the gauge by the current run
  run, t0, v0, fr, pc, base, disk0, mem0, runs, refused, left
vars == <<cfg, t, ver, vt, mem, disk, exists, start, glog, run, t0, v0, fr, pc, base, disk0, mem0, runs, refused, left>>

NoRun == [style |-> 0, tfinal |-> 0, nout |-> 0, times |-> <<>>, nstep |-> 0, overwrite |-> 1]
Init ==
  /\ cfg \in [keep : {0, 1}, writes : {0, 1}, restart : Restarts]
  /\ t = 0 /\ ver = 1 /\ vt = <<0>> /\ mem = <<>> /\ disk = <<>> /\ exists = FALSE
  /\ start = cfg.restart /\ glog = <<>>
  /\ run = NoRun /\ t0 = 0 /\ v0 = 1 /\ fr = 0 /\ pc = "idle" /\ base = 0 /\ disk0 = <<>> /\ mem0 = <<>>
  /\ runs = <<>> /\ refused = FALSE /\ left = 0

RunChoices ==
     { [style |-> 1, tfinal |-> t + n * x, nout |-> n, times |-> <<>>, nstep |-> 1, overwrite |-> o] :
         n \in Nouts, x \in Touts \cup {0}, o \in {0, 1} }
  \cup { [style |-> 2, tfinal |-> 0, nout |-> 1, times |-> <<t, t + x, t + x + y>>, nstep |-> 1, overwrite |-> o] :
         x \in Touts, y \in Touts \cup {0}, o \in {0, 1} }
  \cup { [style |-> 3, tfinal |-> 0, nout |-> start + n, times |-> <<>>, nstep |-> m, overwrite |-> o] :
         n \in Nouts, m \in Nsteps, o \in {0, 1} }

Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Output(num, v) == /\ mem' = IF cfg.keep = 1 THEN Append(mem, v) ELSE mem
                  /\ disk' = IF cfg.writes = 1 THEN Put(disk, num, v) ELSE disk

Begin(r) ==
  /\ pc = "idle" /\ Len(runs) < NRuns
  /\ (cfg.restart > 0 => Len(runs) = 0)
  /\ run' = r /\ runs' = Append(runs, [at |-> t] @@ r) /\ disk0' = disk /\ mem0' = mem /\ t0' = t /\ v0' = ver
  /\ IF MustRefuse(r, cfg.writes = 1, exists)
     THEN /\ refused' = TRUE /\ UNCHANGED <<cfg, t, ver, vt, mem, disk, exists, start, glog, fr, pc, base, left>>
     ELSE /\ refused' = FALSE /\ base' = start /\ fr' = 1 /\ pc' = "run" /\ left' = 0
          /\ exists' = (exists \/ cfg.writes = 1)
          /\ glog' = <<ver>>
          /\ Output(start, ver)
          /\ UNCHANGED <<cfg, t, ver, vt, start>>

(* solver takes the accepted steps that lead to the next frame: m steps for *)
(* style 3, otherwise as many as it likes (none if already there)           *)
Advance(m) ==
  /\ pc = "run" /\ fr < NFrames(run, t0, base)
  /\ LET target == IF run.style = 3 THEN t + run.nstep ELSE OutTimes(run, t0)[fr + 1]
         k == IF run.style = 3 THEN run.nstep ELSE IF target <= t THEN 0 ELSE m
         tt(j) == IF j = k THEN target ELSE t
     IN /\ t' = IF target > t THEN target ELSE t
        /\ ver' = ver + k
        /\ vt' = vt \o [j \in 1..k |-> tt(j)]
        /\ glog' = glog \o [j \in 1..k |-> ver + j]
        /\ Output(base + fr, ver')
        /\ fr' = fr + 1
  /\ UNCHANGED <<cfg, exists, start, run, t0, v0, pc, base, disk0, mem0, runs, refused, left>>

End ==
  /\ pc = "run" /\ fr = NFrames(run, t0, base)
  /\ pc' = "idle" /\ start' = Len(mem)
  /\ UNCHANGED <<cfg, t, ver, vt, mem, disk, exists, glog, run, t0, v0, fr, base, disk0, mem0, runs, refused, left>>

EmitB == /\ Emit /\ pc = "idle" /\ Len(runs) >= 1 /\ (Len(runs) = NRuns \/ cfg.restart > 0) /\ left = 0 /\ left' = 1
         /\ PrintT("BEH " \o ToJson([cfg |-> cfg, runs |-> runs]))
         /\ pc' = "end"
         /\ UNCHANGED <<cfg, t, ver, vt, mem, disk, exists, start, glog, run, t0, v0, fr, base, disk0, mem0, runs, refused>>

Next == (\E r \in RunChoices : Begin(r)) \/ (\E m \in StepChoices : Advance(m)) \/ End \/ EmitB
Spec == Init /\ [][Next]_vars
view == <<cfg, t, ver, mem, disk, exists, start, run, t0, fr, pc, base, Len(runs), refused>>

(* ------------------------------ properties ------------------------------ *)
Complete == pc = "idle" /\ runs # <<>> /\ ~refused
N == NFrames(run, t0, base)
(* C05: the frames of a finished run have the requested times, in order     *)
FramesTimed == Complete /\ run.style < 3 /\ cfg.keep = 1 =>
  /\ Len(mem) = Len(mem0) + N
  /\ \A j \in 1..N : vt[mem[Len(mem0) + j]] = OutTimes(run, t0)[j]
FilesAreFrames == Complete /\ cfg.writes = 1 /\ cfg.keep = 1 =>
  \A j \in 1..N : disk[base + j - 1] = mem[Len(mem0) + j]
OthersKept == Complete /\ cfg.writes = 1 => \A k \in DOMAIN disk0 : (k < base \/ k >= base + N) => disk[k] = disk0[k]
Contiguous == cfg.writes = 1 /\ cfg.keep = 1 /\ pc = "idle" /\ disk # <<>> =>
  \A k \in DOMAIN disk : k >= cfg.restart /\ (k = cfg.restart \/ k - 1 \in DOMAIN disk)
RefusalHarmless == refused => disk = disk0 /\ mem = mem0 /\ ver = v0
(* C07 *)
GaugeComplete == pc = "idle" /\ runs # <<>> /\ ~refused => glog = [j \in 1..(ver - v0 + 1) |-> v0 + j - 1]
=============================================================================
