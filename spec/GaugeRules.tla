----------------------------- MODULE GaugeRules -----------------------------
(* Gauge time series in memory and in files.                                *)
(*   gauge: [id, loc, gt, nf, rows, tc, qc]                                 *)
(*     gt 0 stationary, 1 moving; rows: sequence of [lev, t, q];            *)
(*     tc, qc: how precisely times and values are known (0 full, 1 single,  *)
(*     2 five decimals)                                                     *)
(*   file: [txt, hid, loc, gt, lay, nf, rows, bin, vals, tc, qc]            *)
(*     lay 0 text, 1 binary, 2 single-precision binary; rows the text       *)
(*     records, vals the numbers of the binary file (flat), bin 1 if it is  *)
(*     there                                                                *)
EXTENDS Integers, Sequences
NoFile == [txt |-> 0, hid |-> 0, loc |-> <<>>, gt |-> 0, lay |-> 0, nf |-> 0, rows |-> <<>>, bin |-> 0, vals |-> <<>>, tc |-> 0, qc |-> 0]
Nothing == [id |-> 0, loc |-> <<>>, gt |-> 0, nf |-> 0, rows |-> <<>>, tc |-> 0, qc |-> 0]
Max2(a, b) == IF a > b THEN a ELSE b
(* the binary numbers as records *)
Rows(nf, v) == [r \in 1..(Len(v) \div (nf + 2)) |->
  LET b == (r - 1) * (nf + 2) IN [lev |-> v[b + 1], t |-> v[b + 2], q |-> [m \in 1..nf |-> v[b + 2 + m]]]]
RECURSIVE Flat(_)
Flat(rows) == IF rows = <<>> THEN <<>> ELSE <<rows[1].lev, rows[1].t>> \o rows[1].q \o Flat(Tail(rows))
(* what reading gauge id from the file must do *)
Verdict(f, id) ==
  IF f.txt = 0 \/ f.hid # id THEN "refuse"
  ELSE IF f.lay = 0
       THEN IF f.rows # <<>> /\ \A r \in 1..Len(f.rows) : Len(f.rows[r].q) = f.nf THEN "data" ELSE "refuse"
       ELSE IF f.bin = 0 THEN "nodata"
            ELSE IF Len(f.vals) % (f.nf + 2) = 0 THEN "data" ELSE "refuse"
Content(f) == [id |-> f.hid, loc |-> f.loc, gt |-> f.gt, nf |-> f.nf, rows |-> IF f.lay = 0 THEN f.rows ELSE Rows(f.nf, f.vals),
               tc |-> Max2(f.tc, IF f.lay = 2 THEN 1 ELSE 0), qc |-> Max2(f.qc, IF f.lay = 2 THEN 1 ELSE 0)]
(* the file written for a gauge, values with format class fc *)
Written(g, fc) == [txt |-> 1, hid |-> g.id, loc |-> g.loc, gt |-> g.gt, lay |-> 0, nf |-> g.nf, rows |-> g.rows, bin |-> 0, vals |-> <<>>,
                   tc |-> g.tc, qc |-> Max2(g.qc, fc)]
(* where a moving gauge was, or where a stationary one stands (two dimensions only): <<t, x, y>> per record *)
Path(g) == IF Len(g.loc) # 2 THEN <<>>
           ELSE IF g.gt = 1 THEN [r \in 1..Len(g.rows) |-> <<g.rows[r].t, g.rows[r].q[2], g.rows[r].q[3]>>]
           ELSE << <<g.rows[1].t, g.loc[1], g.loc[2]>> >>
=============================================================================
