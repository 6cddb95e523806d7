----------------------------- MODULE HistModel -----------------------------
(* Simulations in one process.  A compiled simulation keeps its parameters  *)
(* and work arrays in memory shared by the whole process (common blocks and *)
(* module variables); its set-up writes every slot it later reads.  A       *)
(* simulation with Python kernels keeps everything to itself.  The          *)
(* discipline users are promised: compiled simulations one after another,   *)
(* Python ones in any interleaving with anything.  Under it, whatever is    *)
(* read is the reader's own, hence each result is a function of the         *)
(* simulation alone.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NPy, NCo, Slots, MaxInst, MaxPy, Segs, Emit
VARIABLES mem, live, hist, seen
vars == <<mem, live, hist, seen>>
Sims == 1..(NPy + NCo)
IsPy(s) == s <= NPy
Uses(s) == IF IsPy(s) THEN {} ELSE { x \in 1..Slots : (s + x) % 3 # 0 }     \* different families share some slots
NoBody == 0
Init == mem = [x \in 1..Slots |-> NoBody] /\ live = <<>> /\ hist = <<>> /\ seen = {}
(* live[i] = [s |-> simulation, done |-> segments done]; done = Segs + 1: over *)
CompiledAlive == \E i \in 1..Len(live) : ~IsPy(live[i].s) /\ live[i].done <= Segs
Start(s) ==
  /\ Len(live) < MaxInst
  /\ IF IsPy(s) THEN Cardinality({ i \in 1..Len(live) : IsPy(live[i].s) }) < MaxPy ELSE ~CompiledAlive
  /\ mem' = [x \in 1..Slots |-> IF x \in Uses(s) THEN Len(live) + 1 ELSE mem[x]]
  /\ live' = Append(live, [s |-> s, done |-> 0])
  /\ hist' = Append(hist, [op |-> "start", i |-> Len(live) + 1, s |-> s])
  /\ seen' = seen
Seg(i) ==
  /\ live[i].done < Segs
  /\ live' = [live EXCEPT ![i].done = @ + 1]
  /\ seen' = seen \cup { <<i, mem[x]>> : x \in Uses(live[i].s) }
  /\ hist' = Append(hist, [op |-> "seg", i |-> i, s |-> live[i].s])
  /\ mem' = mem
Finish(i) ==
  /\ live[i].done = Segs
  /\ live' = [live EXCEPT ![i].done = Segs + 1]
  /\ hist' = Append(hist, [op |-> "finish", i |-> i, s |-> live[i].s])
  /\ UNCHANGED <<mem, seen>>
Over == Len(live) = MaxInst /\ \A i \in 1..Len(live) : live[i].done = Segs + 1
Next == \/ \E s \in Sims : Start(s)
        \/ \E i \in 1..Len(live) : Seg(i) \/ Finish(i)
Spec == Init /\ [][Next]_vars
OwnData == \A p \in seen : p[1] = p[2]
Report == (Emit = 1 /\ Over) => PrintT("BEH " \o ToJson(hist))
=============================================================================
