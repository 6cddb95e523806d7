------------------------------ MODULE SharpModel ------------------------------
(* Properties of the specified reconstruction and right-hand side for every  *)
(* line of small data; every line is also emitted to be run on the code.     *)
EXTENDS SharpRules, TLC, Json
CONSTANTS Vals, N, Emit
VARIABLES q, out
vars == <<q, out>>
Init == q \in [1..N -> Vals] /\ out = 0
Next == out = 0 /\ out' = 1 /\ UNCHANGED q /\ IF Emit THEN PrintT("BEH " \o ToJson(q)) ELSE TRUE
Spec == Init /\ [][Next]_vars

P(sch, l, bc, a1, a2) == [n |-> <<N, 1, 1>>, nd |-> 1, ix |-> <<1>>, bc |-> <<bc>>, ne |-> 1, q |-> <<q>>,
                          aux |-> <<[i \in 1..N |-> a1], [i \in 1..N |-> a2]>>, cap |-> <<>>, scheme |-> sch, lim |-> <<l>>]
Schemes == { <<"first", 1>>, <<"weno5", 1>> } \cup { <<"tvd", l>> : l \in 1..4 }
V(bc, i) == q[IF bc = "p" THEN ((i - 1) % N) + 1 ELSE Max2(1, Min2(N, i))]
Rv(bc, i) == V(bc, N + 1 - i)
Ed(s, bc, i) == LET v(x) == V(bc, x) IN Edges(s[1], s[2], v, i)
Er(s, bc, i) == LET v(x) == Rv(bc, x) IN Edges(s[1], s[2], v, i)
RECURSIVE Tot(_,_)
Tot(p, i) == IF i = 0 THEN 0 ELSE Rate(p, 1, <<i, 1, 1>>) + Tot(p, i - 1)

Mirror == \A s \in Schemes, bc \in {"p", "e"}, i \in 1..N :
            LET a == Ed(s, bc, i) b == Er(s, bc, N + 1 - i) IN Abs(a[1] - b[2]) <= 1 /\ Abs(a[2] - b[1]) <= 1
(* limited values lie between the cell and its neighbours                    *)
Between == \A s \in Schemes \ { <<"weno5", 1>> }, i \in 1..N :
            LET a == Ed(s, "p", i) l == R * V("p", i - 1) m == R * V("p", i) r == R * V("p", i + 1) IN
            /\ Min2(l, m) - 1 <= a[1] /\ a[1] <= Max2(l, m) + 1 /\ Min2(m, r) - 1 <= a[2] /\ a[2] <= Max2(m, r) + 1
Flatness == (\A i \in 1..N : q[i] = q[1]) => \A s \in Schemes, i \in 1..N : LET a == Ed(s, "p", i) IN Abs(a[1] - (R * q[1])) <= 4 * Abs(q[1]) /\ Abs(a[2] - (R * q[1])) <= 4 * Abs(q[1])
Conserves == \A s \in Schemes, u \in {-2, 1} : Abs(Tot(P(s[1], s[2], "p", u, 0), N)) <= 4 * N /\ Abs(Tot(P(s[1], s[2], "p", 0, u), N)) <= 4 * N
WeightSum == LET w == Weights(Beta(q[1], q[2], q[3], q[4], q[5])) IN Abs(w[1] + w[2] + w[3] - WS) <= 3 /\ w[1] >= 0 /\ w[2] >= 0 /\ w[3] >= 0
(* the three candidates with the optimal weights are the optimal formula     *)
Optimal == LET p == Cand(q[1], q[2], q[3], q[4], q[5]) IN
           (p[1] + (6 * p[2]) + (3 * p[3])) * (Unit(3) \div 60) = (CellW(3, -2) * q[1]) + (CellW(3, -1) * q[2]) + (CellW(3, 0) * q[3]) + (CellW(3, 1) * q[4]) + (CellW(3, 2) * q[5])
RECURSIVE Mom(_,_,_,_)
Mom(k, j, m, sh) == IF j > k - 1 THEN 0 ELSE (CellW(k, j) * Bin(j + sh, m)) + Mom(k, j + 1, m, sh)
(* cell averages Bin(i, m) have the point value (-1)^m/(m+1) at the lower    *)
(* edge of cell 0, that is, the upper edge of cell -1                        *)
Exactness == /\ \A k \in 3..5, m \in 0..8 : m <= (2 * k) - 2 => (m + 1) * Mom(k, 1 - k, m, -1) = (IF m % 2 = 0 THEN Unit(k) ELSE -Unit(k))
             /\ \A k \in 6..9 : Mom(k, 1 - k, 0, -1) = Unit(k) /\ 2 * Mom(k, 1 - k, 1, -1) = -Unit(k) /\ 3 * Mom(k, 1 - k, 2, -1) = Unit(k)
ASSUME Exactness
ASSUME [j \in 1..5 |-> CellW(3, j - 3)] = [j \in 1..5 |-> (Unit(3) \div 60) * <<2, -13, 47, 27, -3>>[j]]
===============================================================================
