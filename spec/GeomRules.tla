----------------------------- MODULE GeomRules -----------------------------
(* Exact coordinates of a rectangular grid.  A geometry is a sequence of    *)
(* dimensions [l, u, n] (extents in quarters, number of cells) and a map    *)
(* number.  Coordinates are expressed in units of 1/W where                 *)
(* W = 8 * product of the numbers of cells, in which all are integers.      *)
EXTENDS Integers, Sequences
RECURSIVE ProdN(_,_)
ProdN(g, d) == IF d = 0 THEN 1 ELSE g[d].n * ProdN(g, d - 1)
W(g) == 8 * ProdN(g, Len(g))
(* position of cell center i (0-based, ghosts negative) and of node i, in dimension d *)
Ctr(g, d, i) == (W(g) \div 4) * g[d].l + ((W(g) \div (8 * g[d].n)) * (2 * i + 1)) * (g[d].u - g[d].l)
Nod(g, d, i) == (W(g) \div 4) * g[d].l + ((W(g) \div (8 * g[d].n)) * (2 * i)) * (g[d].u - g[d].l)
(* maps: 1 the identity, 2 a stretching, 3 a shear of the first coordinate by the last, 4 an exchange of orientation *)
Img(m, x, w) ==
  LET D == Len(x) IN
  CASE m = 1 -> x
    [] m = 2 -> [d \in 1..D |-> (d + 1) * x[d] + w]
    [] m = 3 -> [d \in 1..D |-> IF d = 1 THEN x[1] + 2 * x[D] ELSE x[d]]
    [] m = 4 -> [d \in 1..D |-> (-1) * x[d] + 3 * w]
Maps == 1..4
(* all index tuples of a block of sizes s, last index fastest *)
RECURSIVE Idx(_)
Idx(s) == IF s = <<>> THEN << <<>> >>
          ELSE LET r == Idx(Tail(s)) IN
               LET N == Len(r) IN [k \in 1..(Head(s) * N) |-> <<(k - 1) \div N>> \o r[((k - 1) % N) + 1]]
Valid(l, u, n) == u > l /\ n > 0
(* the cell [nod(i), nod(i+1)) holding a point x (in eighths), 0-based; outside: -1 *)
CellOf(dim, x) == IF x < 2 * dim.l \/ x >= 2 * dim.u THEN 0 - 1 ELSE ((x - 2 * dim.l) * dim.n) \div (2 * (dim.u - dim.l))
OnNode(dim, x) == ((x - 2 * dim.l) * dim.n) % (2 * (dim.u - dim.l)) = 0
=============================================================================
