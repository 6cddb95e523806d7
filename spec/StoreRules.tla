----------------------------- MODULE StoreRules -----------------------------
(* A frame on disc.  A solution is a record                                  *)
(*   [id, np (patches), n (cells of a patch), ne (components), na (aux)]     *)
(* A frame in the text layout is three files, each a sequence of tokens, a   *)
(* token being the unit that is either there or not (a header line or one    *)
(* value):  time file, data file, auxiliary file.                            *)
EXTENDS Integers, Sequences, FiniteSets
Absent == << <<"absent", 0>> >>
Err == [kind |-> "error"]
TTok(s) == << <<"t", s.id>>, <<"ne", s.ne>>, <<"np", s.np>>, <<"na", s.na>>, <<"nd", 1>>, <<"ng", 0>>, <<"ff", 0>> >>
PHead(s, p) == << <<"idx", p>>, <<"lev", 1>>, <<"n", s.n>>, <<"lo", s.n>>, <<"dx", s.n>> >>
RECURSIVE Vals(_,_,_,_,_)
Vals(what, s, p, m, k) == IF k = 0 THEN <<>> ELSE Append(Vals(what, s, p, m, k - 1), <<what, s.id, p, k>>)
RECURSIVE Body(_,_,_,_)
Body(what, s, m, p) == IF p = 0 THEN <<>> ELSE Body(what, s, m, p - 1) \o PHead(s, p) \o Vals(what, s, p, m, s.n * m)
QTok(s) == Body("q", s, s.ne, s.np)
ATok(s) == Body("a", s, s.na, s.np)
(* the reader: consumes tokens in order; running out of tokens is an error *)
Has(f, pos, k) == pos + k - 1 <= Len(f)
RECURSIVE ReadBody(_,_,_,_,_)
ReadBody(f, m, np, pos, acc) ==
  IF np = 0 THEN [kind |-> "body", v |-> acc]
  ELSE IF ~Has(f, pos, 5) THEN Err
  ELSE LET n == f[pos + 2][2] IN
    IF ~Has(f, pos + 5, n * m) THEN Err
    ELSE ReadBody(f, m, np - 1, pos + 5 + n * m,
                  Append(acc, [head |-> SubSeq(f, pos, pos + 4), val |-> SubSeq(f, pos + 5, pos + 4 + n * m)]))
Heads(b) == [p \in 1..Len(b.v) |-> b.v[p].head]
(* reading a frame: F = [t |-> file, q |-> file, a |-> file, a0 |-> the auxiliary file of frame 0] *)
Read(F, aux) ==
  IF F.t = Absent \/ F.q = Absent THEN Err
  ELSE IF Len(F.t) < 5 THEN Err
  ELSE LET ne == F.t[2][2]
           np == F.t[3][2]
           na == F.t[4][2]
           Q  == ReadBody(F.q, ne, np, 1, <<>>)
           af == IF F.a # Absent THEN F.a ELSE F.a0
       IN IF Q.kind = "error" THEN Err
          ELSE IF ~aux \/ na = 0 \/ af = Absent
               THEN [kind |-> "sol", t |-> F.t[1][2], na |-> na, q |-> Q.v, a |-> <<>>]
               ELSE LET A == ReadBody(af, na, np, 1, <<>>) IN
                 IF A.kind = "error" \/ Heads(A) # Heads(Q) THEN Err
                 ELSE [kind |-> "sol", t |-> F.t[1][2], na |-> na, q |-> Q.v, a |-> [p \in 1..np |-> A.v[p].val]]
(* what a complete frame of s reads as *)
Whole(s, withaux) ==
  [kind |-> "sol", t |-> s.id, na |-> s.na, q |-> ReadBody(QTok(s), s.ne, s.np, 1, <<>>).v,
   a |-> IF withaux /\ s.na > 0 THEN [p \in 1..s.np |-> Vals("a", s, p, s.na, s.n * s.na)] ELSE <<>>]
=============================================================================
