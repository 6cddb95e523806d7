----------------------------- MODULE BuildRules -----------------------------
(* Solutions put together from what they are given (C25).                   *)
(*   request: [sf, gf, pats, ne, na]                                        *)
(*     sf: how the states are asked for, gf: how the geometry is, pats: the *)
(*     patches, each a sequence of dimensions <<cells, lower, upper>>;      *)
(*     ne, na: components and auxiliary fields                              *)
(*   state: [pat, ne, na, t, cap, mp, mF, aux, pd, f, fa]                   *)
(*     aux 0 none, 1 an array of its own, other values: what was put there; *)
(*     pd 0 no parameters; f, fa 1 if data and auxiliary values are stored  *)
(*     in the required order                                                *)
EXTENDS Integers, Sequences
GoodS == {"int", "pair", "state", "states", "tstates"}
Given == {"state", "states", "tstates"}
OneS == {"int", "pair", "state"}
GoodG == {"domain", "domain3", "dims", "tdims", "dim", "patch", "patches", "tpatches"}
OneG == {"domain3", "dims", "tdims", "dim", "patch"}
(* forms that fit together *)
Sensible(r) ==
  /\ (r.gf \in OneG \/ r.sf \in OneS) => Len(r.pats) = 1
  /\ r.gf = "dim" => Len(r.pats[1]) = 1
  /\ r.sf = "int" => r.na = 0
  (* given states live on the patches of the geometry given *)
  /\ r.sf \in Given => r.gf \in {"domain", "domain3", "patch", "patches", "tpatches"} \/ r.gf \notin GoodG
Refused(r) == r.sf \notin GoodS \/ r.gf \notin GoodG
State(r, k) == [pat |-> k, ne |-> r.ne, na |-> r.na, t |-> 0, cap |-> 0 - 1, mp |-> 0, mF |-> 0, aux |-> IF r.na = 0 THEN 0 ELSE 1, pd |-> 0, f |-> 1, fa |-> 1]
Built(r) == [k \in 1..Len(r.pats) |-> State(r, k)]
Valid(s) == \A k \in 1..Len(s) : s[k].f = 1 /\ s[k].fa = 1
(* setting an attribute through the solution: time always, sizes once *)
CanSize(s, a, v) == s[1][a] = 0 \/ \A k \in 1..Len(s) : s[k][a] # 0
SizeRefused(s, a) == s[1][a] # 0
SetAll(s, a, v) == [k \in 1..Len(s) |-> [s[k] EXCEPT ![a] = v]]
Keep(s, v) == [k \in 1..Len(s) |-> IF s[k].aux = 0 THEN [s[k] EXCEPT !.aux = v] ELSE s[k]]
Do(s, o) ==
  CASE o.op = "t" -> SetAll(s, "t", o.v)
    [] o.op = "mp" -> IF SizeRefused(s, "mp") THEN s ELSE SetAll(s, "mp", o.v)
    [] o.op = "mF" -> IF SizeRefused(s, "mF") THEN s ELSE SetAll(s, "mF", o.v)
    [] o.op = "all_t" -> SetAll(s, "t", o.v)
    [] o.op = "all_cap" -> SetAll(s, "cap", o.v)
    [] o.op = "all_aux" -> SetAll(SetAll(s, "aux", o.v + 1), "fa", 1)
    [] o.op = "keep_aux" -> Keep(s, o.v + 1)
    [] o.op = "keep_t" -> s
    [] o.op = "one_t" -> [s EXCEPT ![o.k].t = o.v]
    [] o.op = "one_pd" -> [s EXCEPT ![o.k].pd = o.v]
    [] o.op = "one_mp" -> IF s[o.k].mp # 0 THEN s ELSE [s EXCEPT ![o.k].mp = o.v]
    [] o.op = "corder" -> [s EXCEPT ![o.k].f = 0]
    [] o.op = "caux" -> [s EXCEPT ![o.k].fa = 0]
MustFail(s, o) == \/ o.op \in {"mp", "mF"} /\ SizeRefused(s, o.op)
                  \/ o.op = "one_mp" /\ s[o.k].mp # 0
Allowed(s, o) ==
  /\ o.k \in 1..Len(s)
  /\ o.op \in {"mp", "mF"} => SizeRefused(s, o.op) \/ \A k \in 1..Len(s) : s[k][o.op] = 0
  /\ o.op = "corder" => s[o.k].f = 1
  /\ o.op = "caux" => s[o.k].fa = 1 /\ s[o.k].aux # 0
=============================================================================
