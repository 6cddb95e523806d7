----------------------------- MODULE GaugeModel -----------------------------
(* Gauge files: gauges made in memory and written, files left by other      *)
(* programs in the text and binary layouts, damage to files, reading into   *)
(* new and used objects, splitting an old combined file.  Values are        *)
(* tokens: the number of the operation that made them.                      *)
EXTENDS GaugeRules, FiniteSets, TLC, Json
CONSTANTS Ids, Slots, Dims, Recs, Fields, MaxOps, Emit
VARIABLES mem, disc, last, hist
vars == <<mem, disc, last, hist>>
Init == mem = [s \in Slots |-> Nothing] /\ disc = [x \in Ids |-> NoFile] /\ last = "-" /\ hist = <<>>
Tok == Len(hist) + 1
More == Len(hist) < MaxOps
Series(n, nf) == [r \in 1..n |-> [lev |-> r, t |-> 100 * Tok + r, q |-> [m \in 1..nf |-> 100 * Tok + 10 * m + r]]]
Op(op, s, x, dim, n, nf, gt, lay, how) == [op |-> op, s |-> s, id |-> x, dim |-> dim, n |-> n, nf |-> nf, gt |-> gt, lay |-> lay, how |-> how]
Loc(dim) == [d \in 1..dim |-> 100 * Tok + 90 + d]
Make(s, x, dim, n, nf, gt) ==
  /\ More /\ (gt = 1 => nf >= 3 /\ dim = 2)
  /\ mem' = [mem EXCEPT ![s] = [id |-> x, loc |-> Loc(dim), gt |-> gt, nf |-> nf, rows |-> Series(n, nf), tc |-> 0, qc |-> 0]]
  /\ hist' = Append(hist, Op("make", s, x, dim, n, nf, gt, 0, "-"))
  /\ last' = "-" /\ UNCHANGED disc
Write(s, fc) ==
  /\ More /\ mem[s].rows # <<>>
  /\ disc' = [disc EXCEPT ![mem[s].id] = [Written(mem[s], fc) EXCEPT !.bin = disc[mem[s].id].bin, !.vals = disc[mem[s].id].vals]]
  /\ hist' = Append(hist, Op("write", s, mem[s].id, 0, 0, 0, 0, fc, "-"))
  /\ last' = "write" /\ UNCHANGED mem
(* nothing to write *)
WriteNothing(s) ==
  /\ More /\ mem[s].rows = <<>>
  /\ hist' = Append(hist, Op("refuse", s, mem[s].id, 0, 0, 0, 0, 0, "-"))
  /\ last' = "-" /\ UNCHANGED <<mem, disc>>
Put(x, dim, n, nf, gt, lay) ==
  /\ More /\ (gt = 1 => nf >= 3 /\ dim = 2)
  /\ disc' = [disc EXCEPT ![x] = [txt |-> 1, hid |-> x, loc |-> Loc(dim), gt |-> gt, lay |-> lay, nf |-> nf,
                                  rows |-> IF lay = 0 THEN Series(n, nf) ELSE <<>>,
                                  bin |-> IF lay = 0 THEN disc[x].bin ELSE 1, vals |-> IF lay = 0 THEN disc[x].vals ELSE Flat(Series(n, nf)), tc |-> 0, qc |-> 0]]
  /\ hist' = Append(hist, Op("put", 0, x, dim, n, nf, gt, lay, "-"))
  /\ last' = "put" /\ UNCHANGED mem
Damaged(f, how) ==
  CASE how = "gone" -> NoFile
    [] how = "id" -> [f EXCEPT !.hid = f.hid + 1]
    [] how = "fields" -> [f EXCEPT !.nf = f.nf + 1]
    [] how = "fewer" -> [f EXCEPT !.nf = f.nf - 1]
    [] how = "nobin" -> [f EXCEPT !.bin = 0, !.vals = <<>>]
    [] how = "cutbin" -> [f EXCEPT !.vals = SubSeq(f.vals, 1, Len(f.vals) - 1)]
    [] how = "cutrow" -> [f EXCEPT !.rows = SubSeq(f.rows, 1, Len(f.rows) - 1) \o << [f.rows[Len(f.rows)] EXCEPT !.q = SubSeq(@, 1, Len(@) - 1)] >>]
    [] how = "norows" -> [f EXCEPT !.rows = <<>>]
Can(f, how) == f.txt = 1 /\ CASE how \in {"gone", "id"} -> TRUE
    [] how = "fields" -> Verdict(f, f.hid) = "data" /\ (f.lay = 0 \/ Len(f.vals) % (f.nf + 3) # 0)
    [] how = "fewer" -> f.nf > 1 /\ Verdict(f, f.hid) = "data" /\ (f.lay = 0 \/ Len(f.vals) % (f.nf + 1) # 0)
    [] how = "nobin" -> f.lay # 0 /\ f.bin = 1
    [] how = "cutbin" -> f.lay # 0 /\ Verdict(f, f.hid) = "data" /\ Len(f.vals) > 0
    [] how \in {"cutrow"} -> f.lay = 0 /\ Verdict(f, f.hid) = "data" /\ Len(f.rows[Len(f.rows)].q) > 0
    [] how = "norows" -> f.lay = 0
Damage(x, how) ==
  /\ More /\ Can(disc[x], how)
  /\ disc' = [disc EXCEPT ![x] = Damaged(disc[x], how)]
  /\ hist' = Append(hist, Op("damage", 0, x, 0, 0, 0, 0, 0, how))
  /\ last' = "damage" /\ UNCHANGED mem
(* how: through the constructor (a new object) or the reading method of the old one *)
Read(s, x, how) ==
  /\ More
  /\ LET v == Verdict(disc[x], x) IN
     /\ mem' = [mem EXCEPT ![s] = IF v = "data" THEN Content(disc[x]) ELSE Nothing]
     /\ last' = v
  /\ hist' = Append(hist, Op("read", s, x, 0, 0, 0, 0, 0, how))
  /\ UNCHANGED disc
(* an old combined file with n records of each of two gauges *)
Convert(x, y, n, nf) ==
  /\ More /\ x # y
  /\ disc' = [z \in Ids |-> IF z \in {x, y}
        THEN Written([id |-> z, loc |-> <<-1, -1>>, gt |-> 0, nf |-> nf, rows |-> Series(n, nf), tc |-> 0, qc |-> 0], 0) ELSE disc[z]]
  /\ hist' = Append(hist, Op("convert", 0, x, y, n, nf, 0, 0, "-"))
  /\ last' = "convert" /\ UNCHANGED mem
Hows == {"gone", "id", "fields", "fewer", "nobin", "cutbin", "cutrow", "norows"}
Next == \/ \E s \in Slots, x \in Ids, d \in Dims, n \in Recs, nf \in Fields, gt \in {0, 1} : Make(s, x, d, n, nf, gt)
        \/ \E s \in Slots, fc \in {0, 2} : Write(s, fc)
        \/ \E s \in Slots : WriteNothing(s)
        \/ \E x \in Ids, d \in Dims, n \in Recs, nf \in Fields, gt \in {0, 1}, lay \in {0, 1, 2} : Put(x, d, n, nf, gt, lay)
        \/ \E x \in Ids, how \in Hows : Damage(x, how)
        \/ \E s \in Slots, x \in Ids, how \in {"new", "again"} : Read(s, x, how)
        \/ \E x, y \in Ids, n \in Recs, nf \in Fields : Convert(x, y, n, nf)
(* for random behaviours: one candidate of each kind *)
R(S) == RandomElement({ x \in S : Len(hist) >= 0 })
NextSim == \/ Make(R(Slots), R(Ids), R(Dims), R(Recs), R(Fields), 0)
           \/ Make(R(Slots), R(Ids), 2, R(Recs), R(Fields), 1)
           \/ Put(R(Ids), R(Dims), R(Recs), R(Fields), 0, R({0, 1, 2}))
           \/ Put(R(Ids), 2, R(Recs), R(Fields), 1, R({0, 1, 2}))
           \/ Write(R(Slots), R({0, 2})) \/ Write(R(Slots), 0)
           \/ WriteNothing(R(Slots))
           \/ \E x \in Ids : Damage(x, R(Hows))
           \/ \E x \in Ids : disc[x].txt = 1 /\ Read(R(Slots), x, R({"new", "again"}))
           \/ Read(R(Slots), R(Ids), R({"new", "again"}))
           \/ Convert(R(Ids), R(Ids), R(Recs), R(Fields))
SpecSim == Init /\ [][NextSim]_vars
Spec == Init /\ [][Next]_vars
View == <<mem, disc, last, Len(hist)>>
(* what was written or put is what reading gives, as long as nothing else happened to the file *)
RoundTrip == \A s \in Slots : mem[s].rows # <<>> =>
  LET f == Written(mem[s], 0) IN Verdict(f, mem[s].id) = "data" /\ Content(f) = mem[s]
BinRoundTrip == \A s \in Slots, lay \in {1, 2} : mem[s].rows # <<>> =>
  LET f == [Written(mem[s], 0) EXCEPT !.lay = lay, !.bin = 1, !.vals = Flat(mem[s].rows), !.rows = <<>>]
  IN Verdict(f, mem[s].id) = "data" /\ Content(f).rows = mem[s].rows
(* a gauge in memory is whole: never a mixture of two sources *)
Whole == \A s \in Slots : \A r \in 1..Len(mem[s].rows) :
  /\ Len(mem[s].rows[r].q) = mem[s].nf
  /\ mem[s].rows[r].t \div 100 = mem[s].rows[1].t \div 100
  /\ \A m \in 1..mem[s].nf : mem[s].rows[r].q[m] \div 100 = mem[s].rows[r].t \div 100
(* damage is noticed: a damaged file is never taken for data, unless rewritten *)
Noticed == [][\A x \in Ids, how \in Hows : (Damage(x, how) => Verdict(disc'[x], x) # "data")]_vars
Report == IF Emit = 1 /\ Len(hist) = MaxOps THEN PrintT("BEH " \o ToJson(hist)) ELSE TRUE
=============================================================================
