------------------------------ MODULE SharpTrace ------------------------------
(* Judges recorded right-hand sides of SharpClaw solvers (C14) and the       *)
(* Courant numbers found with them (C03).                                    *)
EXTENDS SharpRules, TLC, Json, IOUtils
VARIABLES k, i, st
OFF == -2147483000
Init0(tr) == 0
B(cond, name) == IF cond THEN {} ELSE {name}
Close(a, b, t) == a # OFF /\ a - b <= t /\ b - a <= t

RECURSIVE SumIx(_,_)
SumIx(p, d) == IF d = 0 THEN 0 ELSE p.ix[d] + SumIx(p, d - 1)
(* the specified values at the edges are exact but for rounded WENO weights  *)
Tol(p, m) == IF p.scheme = "weno5" THEN 12 * 24 * m * SumIx(p, p.nd) ELSE 4
RateBad(e) ==
  LET p == e.p IN
  B(\A m \in 1..p.ne : \A c \in Cells(p) : Close(e.r[m][Flat(p, c)], Rate(p, m, c), Tol(p, m)), "C14.formula")
  \cup B(e.cfl >= CfLow(p) - 2 /\ e.cfl <= CfHigh(p) + 2, "C03.courant")
  \cup B(e.kept = 1, "C14.aux")

RECURSIVE LinSum(_,_,_,_)
LinSum(e, o, sg, j) == IF j > e.k - 1 THEN 0 ELSE (CellW(e.k, j) * e.b[e.at + o + (sg * j)]) + LinSum(e, o, sg, j + 1)
(* cell e.at; speed e.u: the upwind edges of the cell                        *)
LinBad(e) ==
  LET want == IF e.u > 0 THEN -(LinSum(e, 0, 1, 1 - e.k) - LinSum(e, -1, 1, 1 - e.k))
              ELSE LinSum(e, 1, -1, 1 - e.k) - LinSum(e, 0, -1, 1 - e.k) IN
  B(e.unit = Unit(e.k) /\ Close(e.r, want, (e.unit \div 500) + 2), "C14.optimal")
RECURSIVE PolySum(_,_)
PolySum(e, m) == IF m < 0 THEN 0 ELSE (e.c[m + 1] * PointDiff(m)) + PolySum(e, m - 1)
RECURSIVE PolyAvg(_,_,_)
PolyAvg(e, x, m) == IF m < 0 THEN 0 ELSE (e.c[m + 1] * Bin(x, m)) + PolyAvg(e, x, m - 1)
PolyBad(e) == B(\A x \in 1..Len(e.q) : e.q[x] = PolyAvg(e, x - e.at, Len(e.c) - 1), "ALL.badrecord")
              \cup B(Len(e.c) <= e.k /\ Close(e.r, -(e.u * PolySum(e, Len(e.c) - 1)), 8), "C14.exact")
(* cells 1..e.m hold the same value                                          *)
FlatBad(e) == B(\A x \in e.k..(IF e.u > 0 THEN e.m ELSE e.m - 1) : Close(e.r[x], 0, 2), "C14.flat")

(* pairs of problems                                                         *)
Map(e, c) ==
  LET p == e.p IN
  CASE e.rel = "same" -> c
    [] e.rel = "shift" -> [d \in 1..3 |-> ((c[d] - 1 + e.by[d]) % p.n[d]) + 1]
    [] e.rel = "mirror" -> [c EXCEPT ![e.d] = p.n[e.d] + 1 - @]
    [] e.rel = "swap" -> [c EXCEPT ![e.d] = c[e.d2], ![e.d2] = c[e.d]]
    [] e.rel = "lift" -> <<c[e.d], 1, 1>>
PairBad(e) ==
  LET p == e.p IN
  B(\A m \in 1..p.ne : \A c \in Cells(p) :
      LET x == e.a[m][Flat(p, c)] y == e.b[m][Flat(e.p2, Map(e, c))] IN
      y # OFF /\ Close(x * e.fa, y * e.fb, e.tol), "C14." \o e.rel)

Bad(tr, s, e) ==
  CASE e.e = "rate" -> RateBad(e)
    [] e.e = "lin" -> LinBad(e)
    [] e.e = "poly" -> PolyBad(e)
    [] e.e = "flat" -> FlatBad(e)
    [] e.e = "pair" -> PairBad(e)
    [] e.e = "zero" -> B(\A x \in 1..Len(e.r) : Close(e.r[x], 0, 2), "C14.constant")
    [] e.e = "crash" -> {"ALL.crash"}
    [] OTHER -> {"ALL.unknownevent"}
After(tr, s, e) == s
INSTANCE TraceBase
===============================================================================
