-------------------------------- MODULE MolGen --------------------------------
(* Step histories for the integrators: lengths, rejected attempts and the    *)
(* shorter lengths with which they are retaken.  For the multistep methods   *)
(* with variable steps the generator respects their own step-size bound (a   *)
(* step of length at most H mu / (H + (p-1) mu), mu the largest length of a  *)
(* forward Euler step).                                                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len1, NSteps
VARIABLES c, ops, ts, pc
vars == <<c, ops, ts, pc>>
TIs == {"Euler", "SSP33", "SSP104", "RK", "SSPLMMk2", "SSPLMMk3", "LMM"}
Init == /\ c \in [ti : TIs, s : 3..5, kind : {"s1py", "s1f", "s2f"}]
        /\ (c.ti = "SSPLMMk3" => c.s >= 4)
        /\ (c.ti \in {"Euler", "SSP33", "SSP104"} => c.s = 3)
        /\ ops = <<>> /\ ts = <<0>> /\ pc = 0
n == Len(ts)
Start == c.ti \in {"SSPLMMk2", "SSPLMMk3"} /\ n < c.s
Multi == c.ti \in {"SSPLMMk2", "SSPLMMk3"} /\ n >= c.s
(* 1/mu is at most 1/24 here                                                 *)
Fits(h) == Multi => LET H == ts[n] - ts[n - c.s + 1]
                        p == IF c.ti = "SSPLMMk2" THEN 2 ELSE 3 IN
                    h * (H + ((p - 1) * 24)) < H * 24
CanReject(h, r) == ~Multi /\ c.ti # "LMM" /\ c.ti # "Euler" /\ 2 * r < h
Step == /\ pc = 0 /\ Len(ops) < NSteps
        /\ \E h \in Len1, r \in {0} \cup Len1 :
             /\ (c.ti = "LMM" => \A j \in 1..Len(ops) : ops[j].h = h)
             /\ (r = 0 \/ CanReject(h, r)) /\ Fits(h)
             /\ ops' = Append(ops, [h |-> h, r |-> r])
             /\ ts' = Append(ts, ts[n] + (IF r = 0 THEN h ELSE r))
        /\ UNCHANGED <<c, pc>>
Out == /\ pc = 0 /\ Len(ops) = NSteps /\ pc' = 1 /\ UNCHANGED <<c, ops, ts>>
       /\ PrintT("BEH " \o ToJson([c |-> c, ops |-> ops]))
Next == Step \/ Out
Spec == Init /\ [][Next]_vars
Advances == \A j \in 1..(Len(ts) - 1) : ts[j] < ts[j + 1]
===============================================================================
