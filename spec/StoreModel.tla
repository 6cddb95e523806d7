----------------------------- MODULE StoreModel -----------------------------
(* A directory of frames, written token by token, with crashes at every      *)
(* point, and damage (files removed, cut at any token).  A frame is written  *)
(* in the order time file, data file, auxiliary file; opening a file for     *)
(* writing empties it.                                                       *)
EXTENDS StoreRules, TLC
CONSTANTS Frames, NSols, MaxOps, Overwrite
VARIABLES dir, prog, want, ops
vars == <<dir, prog, want, ops>>
Sols == { [id |-> 1, np |-> 1, n |-> 2, ne |-> 1, na |-> 1], [id |-> 2, np |-> 2, n |-> 1, ne |-> 2, na |-> 0],
          [id |-> 3, np |-> 2, n |-> 2, ne |-> 1, na |-> 2], [id |-> 4, np |-> 1, n |-> 3, ne |-> 2, na |-> 1] }
Use == { s \in Sols : s.id <= NSols }
Parts == {"t", "q", "a"}
None == [kind |-> "none"]
Init == /\ dir = [f \in Frames |-> [x \in Parts |-> Absent]]
        /\ prog = None
        /\ want = [f \in Frames |-> [st |-> "empty"]]
        /\ ops = 0
Todo(s, aux) == << <<"t", TTok(s)>>, <<"q", QTok(s)>> >> \o (IF aux /\ s.na > 0 THEN << <<"a", ATok(s)>> >> ELSE <<>>)
Empty(f) == \A x \in Parts : dir[f][x] = Absent
Begin(f, s, aux) ==
  /\ prog = None /\ ops < MaxOps
  /\ Overwrite \/ Empty(f)
  /\ prog' = [kind |-> "writing", f |-> f, s |-> s, aux |-> aux, todo |-> Todo(s, aux), open |-> FALSE]
  /\ want' = [want EXCEPT ![f] = [st |-> "partial", s |-> s, aux |-> aux]]
  /\ ops' = ops + 1 /\ dir' = dir
(* one token, or the opening of the next file *)
Step ==
  /\ prog.kind = "writing" /\ prog.todo # <<>>
  /\ LET x == prog.todo[1][1]
         tk == prog.todo[1][2]
         f == prog.f IN
     IF ~prog.open
     THEN dir' = [dir EXCEPT ![f][x] = <<>>] /\ prog' = [prog EXCEPT !.open = TRUE]
     ELSE IF Len(dir[f][x]) < Len(tk)
     THEN dir' = [dir EXCEPT ![f][x] = Append(@, tk[Len(@) + 1])] /\ prog' = prog
     ELSE dir' = dir /\ prog' = [prog EXCEPT !.todo = Tail(@), !.open = FALSE]
  /\ UNCHANGED <<want, ops>>
Done ==
  /\ prog.kind = "writing" /\ prog.todo = <<>>
  /\ prog' = None
  /\ want' = [want EXCEPT ![prog.f] = [st |-> "whole", s |-> prog.s, aux |-> prog.aux]]
  /\ UNCHANGED <<dir, ops>>
Crash == prog.kind = "writing" /\ prog' = None /\ UNCHANGED <<dir, want, ops>>
Cut(f, x, k) ==
  /\ prog = None /\ ops < MaxOps /\ dir[f][x] # Absent /\ k < Len(dir[f][x])
  /\ dir' = [dir EXCEPT ![f][x] = SubSeq(@, 1, k)]
  /\ want' = [want EXCEPT ![f].st = IF @ = "empty" THEN "empty" ELSE "partial"]
  /\ ops' = ops + 1 /\ prog' = prog
Remove(f, x) ==
  /\ prog = None /\ ops < MaxOps /\ dir[f][x] # Absent
  /\ dir' = [dir EXCEPT ![f][x] = Absent]
  /\ want' = [want EXCEPT ![f].st = IF @ = "empty" THEN "empty" ELSE "partial"]
  /\ ops' = ops + 1 /\ prog' = prog
Next == \/ \E f \in Frames, s \in Use, aux \in BOOLEAN : Begin(f, s, aux)
        \/ Step \/ Done \/ Crash
        \/ \E f \in Frames, x \in Parts : Remove(f, x) \/ (dir[f][x] # Absent /\ \E k \in 0..(Len(dir[f][x]) - 1) : Cut(f, x, k))
Spec == Init /\ [][Next]_vars
Files(f) == [t |-> dir[f]["t"], q |-> dir[f]["q"], a |-> dir[f]["a"], a0 |-> dir[0]["a"]]
(* C15: a complete frame reads back as what was written, whatever happened to other frames;
   without an auxiliary file of its own, it takes over frame 0's if that fits *)
RoundTrip ==
  \A f \in Frames : want[f].st = "whole" =>
    /\ Read(Files(f), FALSE) = Whole(want[f].s, FALSE)
    /\ (want[f].aux \/ f = 0 \/ dir[0]["a"] = Absent) => Read(Files(f), TRUE) = Whole(want[f].s, want[f].aux)
(* C16: an incomplete frame is an error, or is what was being written; auxiliary values are its own, or all absent *)
NoPartial ==
  \A f \in Frames : want[f].st = "partial" =>
    /\ Read(Files(f), FALSE) \in {Err, Whole(want[f].s, FALSE)}
    /\ dir[0]["a"] = Absent \/ f = 0 => Read(Files(f), TRUE) \in {Err, Whole(want[f].s, TRUE), Whole(want[f].s, FALSE)}
    /\ dir[f]["a"] # Absent => Read(Files(f), TRUE) \in {Err, Whole(want[f].s, TRUE)}
Nothing == \A f \in Frames : Empty(f) => Read(Files(f), FALSE) = Err
=============================================================================
