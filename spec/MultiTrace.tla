------------------------------ MODULE MultiTrace ------------------------------
(* Judges recorded two- and three-dimensional classic steps on prescribed    *)
(* Riemann solutions (C10), the Courant numbers reported for them (C03), and *)
(* pairs of computations that have to agree.                                 *)
EXTENDS PlaneRules, SpaceRules, TLC, Json, IOUtils
VARIABLES k, i, st
Init0(tr) == 0
B(cond, name) == IF cond THEN {} ELSE {name}
Close(a, b, t) == a - b <= t /\ b - a <= t

(* Courant number along row or column j (d = 1, 2), interfaces of interior cells *)
LineC(p, d, j) == LET l == Line(p, d, j) IN Courant(l)
Lo2(p) == SetMax({ LineC(p, 1, j) : j \in 3..(p.n[2] + 2) } \cup { LineC(p, 2, j) : j \in 3..(p.n[1] + 2) })
Hi2(p) == SetMax({ LineC(p, 1, j) : j \in 1..(p.n[2] + 4) } \cup { LineC(p, 2, j) : j \in 1..(p.n[1] + 4) })
CF3(p, d, c) == SetMax({ Max2(Nu(p, d, Up(d, c)) * Spd(p, w, d, c), -Nu(p, d, c) * Spd(p, w, d, c)) : w \in 1..p.nw })
Lo3(p) == SetMax({0} \cup UNION { { CF3(p, d, c) : c \in { x \in Ifaces(p, d) : \A e \in 1..3 : e # d => x[e] \in 3..(p.n[e] + 2) } } : d \in 1..3 })
Hi3(p) == SetMax({0} \cup UNION { { CF3(p, d, c) : c \in (1..(p.n[1] + (IF d = 1 THEN 3 ELSE 4))) \X (1..(p.n[2] + (IF d = 2 THEN 3 ELSE 4))) \X (1..(p.n[3] + (IF d = 3 THEN 3 ELSE 4))) } : d \in 1..3 })

Bad(tr, s, e) ==
  CASE e.e = "plane" ->
         LET p == e.p F == TLCEval(AllF(p)) IN
         B(\A m \in 1..p.ne, x \in 1..p.n[1], y \in 1..p.n[2] : Close(e.q2[m][x][y], New2(p, F, m, x, y), 12), "C10.formula2")
         \cup B(e.cfl >= Lo2(p) /\ e.cfl <= Hi2(p), "C03.courant") \cup B(e.aux = 1, "C10.aux")
    [] e.e = "space" ->
         LET p == e.p C == TLCEval(AllCorr(p)) IN
         B(\A m \in 1..p.ne : \A c \in Inner(p) : Close(e.q2[m][c[1] - 2][c[2] - 2][c[3] - 2], New3(p, C, m, c), 16), "C10.formula3")
         \cup B(e.cfl >= Lo3(p) /\ e.cfl <= Hi3(p), "C03.courant") \cup B(e.aux = 1, "C10.aux")
    [] e.e = "same" ->
         B(Len(e.a) = Len(e.b) /\ \A x \in 1..Len(e.a) : Close(e.a[x], e.b[x], e.tol) /\ e.a[x] > -2147000000, e.what)
    [] e.e = "crash" -> {"ALL.crash"}
    [] OTHER -> {"ALL.unknownevent"}
After(tr, s, e) == s
INSTANCE TraceBase
===============================================================================
