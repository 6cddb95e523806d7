----------------------------- MODULE ConsModel -----------------------------
(* (a) whatever the Riemann solver sends across the interfaces, as long as  *)
(* both parts add up to the flux difference, and whatever the limiter makes *)
(* of the correction fluxes, the weighted total never changes;              *)
(* (b) the limited upwind step with any limiter in the TVD region neither   *)
(* increases the total variation nor leaves the range of the data.          *)
EXTENDS ConsRules, TLC
CONSTANTS N, QMax, MA, MK
VARIABLES mode, q, k, c, tot, step
vars == <<mode, q, k, c, tot, step>>

F(x) == x * x - 2 * x      \* any flux function
Fluct(qq) == { am \in [1..MA -> -1..2] : TRUE }
InitA == mode = "a" /\ q \in [1..MA -> 0..2] /\ k \in [1..MA -> 1..MK] /\ c = 0 /\ step = 0 /\ tot = 0
(* the state holds the weighted amounts capacity * value in units of the    *)
(* common step; only their total is claimed                                 *)
NextA == /\ mode = "a" /\ step < 1
         /\ \E am \in [1..MA -> -1..1], cf \in [1..MA -> {-2, 0, 1}] :
              LET ap == [j \in 1..MA |-> F(q[Nxt(MA, j)]) - F(q[j]) - am[j]]
                  out == [i \in 1..MA |-> Out(MA, am, ap, cf, i)] IN
              tot' = tot + SumTo(out, MA)
         /\ step' = step + 1 /\ UNCHANGED <<mode, q, k, c>>
InitB == mode = "b" /\ q \in { f \in [1..N -> 0..QMax] : f[1] = 0 } /\ k = [j \in 1..N |-> 0] /\ c \in 0..8 /\ step = 0 /\ tot = 0
NextB == /\ mode = "b" /\ step < 1
         /\ \E kk \in [1..N -> 0..4] :
              (\A j \in 1..N : InRegion(q, kk, j)) /\ k' = kk
         /\ step' = 1 /\ UNCHANGED <<mode, q, c, tot>>
Init == InitA \/ InitB
Next == NextA \/ NextB
Spec == Init /\ [][Next]_vars

Conserved == mode = "a" => tot = 0
New == [i \in 1..N |-> Upwind(q, c, k, i)]
ConservedB == mode = "b" => SumTo(New, N) = 256 * SumTo(q, N)
TVD == mode = "b" => TV(New) <= 256 * TV(q)
Range == mode = "b" => \A i \in 1..N : New[i] >= 256 * MinTo(q, N) /\ New[i] <= 256 * MaxTo(q, N)
ConstantStays == (mode = "b" /\ TV(q) = 0) => \A i \in 1..N : New[i] = 256 * q[i]
=============================================================================
