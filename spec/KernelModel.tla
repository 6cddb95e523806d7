----------------------------- MODULE KernelModel -----------------------------
(* Constant-speed scalar advection on a periodic domain, all data on a      *)
(* small grid: the update formula itself is conservative, total variation   *)
(* diminishing for the classical limiters, bounded, translation and mirror  *)
(* symmetric, and local.                                                    *)
EXTENDS KernelRules, TLC
CONSTANTS N, V, Speeds, Lims
VARIABLES q, u, lim, ord, nu, pc, new
vars == <<q, u, lim, ord, nu, pc, new>>
Gh == 2
Wrap(i) == 1 + ((i - 1 - Gh + 8 * N) % N)
Problem(qq, uu, ll, oo, nn) ==
  LET D(j) == qq[Wrap(j + 1)] - qq[Wrap(j)] IN
  [n |-> N, g |-> Gh, ne |-> 1, nw |-> 1, ord |-> oo, fw |-> 0, lim |-> <<ll>>,
   d |-> [i \in 1..(N + 2 * Gh) |-> nn],
   wave |-> <<<< [j \in 1..(N + 2 * Gh - 1) |-> D(j)] >>>>, s |-> << [j \in 1..(N + 2 * Gh - 1) |-> uu] >>,
   am |-> << [j \in 1..(N + 2 * Gh - 1) |-> Min2(uu, 0) * D(j)] >>, ap |-> << [j \in 1..(N + 2 * Gh - 1) |-> Max2(uu, 0) * D(j)] >>,
   q |-> <<qq>>]
Result(p) == [i \in 1..N |-> New(p, 1, i)]

Init == /\ q \in [1..N -> 0..V] /\ u \in Speeds \cup {-x : x \in Speeds} /\ lim \in Lims /\ ord \in {1, 2} /\ nu \in {16, 32}
        /\ pc = 0 /\ new = <<>>
Next == /\ pc = 0 /\ pc' = 1 /\ new' = Result(Problem(q, u, lim, ord, nu)) /\ UNCHANGED <<q, u, lim, ord, nu>>
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_,_)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
TV(f) == Sum([i \in 1..N |-> Abs(f[(i % N) + 1] - f[i])], N)
Eps == 4
Within == Courant(Problem(q, u, lim, ord, nu)) <= 64
Conservation == pc = 1 => Abs(Sum(new, N) - S * Sum(q, N)) <= Eps * N
TVDim == (pc = 1 /\ Within /\ (ord = 1 \/ IsTVD(lim))) => TV(new) <= S * TV(q) + 2 * Eps * N
Bounded == (pc = 1 /\ Within /\ (ord = 1 \/ IsTVD(lim))) =>
             \A i \in 1..N : new[i] >= S * SetMax({-q[k] : k \in 1..N}) * (-1) - Eps /\ new[i] <= S * SetMax({q[k] : k \in 1..N}) + Eps
Constant == (pc = 1 /\ \A i \in 1..N : q[i] = q[1]) => \A i \in 1..N : new[i] = S * q[1]
Shifted == pc = 1 => LET q2 == [i \in 1..N |-> q[(i % N) + 1]] r2 == Result(Problem(q2, u, lim, ord, nu)) IN
             \A i \in 1..N : r2[i] = new[(i % N) + 1]
Mirror == pc = 1 => LET q2 == [i \in 1..N |-> q[N + 1 - i]] r2 == Result(Problem(q2, -u, lim, ord, nu)) IN
             \A i \in 1..N : Abs(r2[i] - new[N + 1 - i]) <= Eps
(* at Courant number one the data are shifted exactly, whatever the limiter *)
UnitShift == (pc = 1 /\ Abs(u) * nu = 64) => \A i \in 1..N : new[i] = S * q[IF u > 0 THEN Wrap(i - 1 + Gh) ELSE Wrap(i + 1 + Gh)]
==============================================================================
