------------------------------- MODULE MolModel -------------------------------
(* The integrators as they run: registers combined stage by stage, as linear *)
(* combinations of the data and the rates seen so far (weights in 300ths of  *)
(* the data and of length times rate).  Checked: they realise the tableaux,  *)
(* the tableaux satisfy the order conditions, the multistep formulas         *)
(* reproduce polynomials for every sequence of step lengths.                 *)
EXTENDS MolRules, FiniteSets, TLC
CONSTANTS Lens
Z(n) == [j \in 1..n |-> 0]
(* a register: [q |-> weight of data, k |-> weights of rates]                *)
Reg(n) == [q |-> 300, k |-> Z(n)]
AddK(r, j, num, den) == [r EXCEPT !.k[j] = @ + ((300 * num) \div den)]
Comb(a, x, b, y) == [q |-> ((a[1] * x.q) \div a[2]) + ((b[1] * y.q) \div b[2]),
                     k |-> [j \in 1..Len(x.k) |-> ((a[1] * x.k[j]) \div a[2]) + ((b[1] * y.k[j]) \div b[2])]]
RECURSIVE Chain(_,_,_)
Chain(r, from, to) == IF from > to THEN <<r>> ELSE <<r>> \o Chain(AddK(r, from, 1, 6), from + 1, to)
(* stage data (registers) and result of the three-stage method               *)
Low33 ==
  LET q == Reg(3)
      s2 == AddK(q, 1, 1, 1)
      s3 == Comb(<<3, 4>>, q, <<1, 4>>, AddK(s2, 2, 1, 1)) IN
  [st |-> <<q, s2, s3>>, fin |-> Comb(<<1, 3>>, q, <<2, 3>>, AddK(s3, 3, 1, 1))]
Low104 ==
  LET q == Reg(10)
      c == Chain(q, 1, 5)                 \* six registers, the last after five evaluations
      s6 == c[6]
      qq == Comb(<<1, 25>>, q, <<9, 25>>, s6)
      r6 == Comb(<<15, 1>>, qq, <<-5, 1>>, s6)
      d == Chain(r6, 6, 9) IN
  [st |-> SubSeq(c, 1, 5) \o d, fin |-> AddK(Comb(<<1, 1>>, qq, <<3, 5>>, d[5]), 10, 1, 10)]
RealisesTableau ==
  /\ \A i \in 1..3 : Low33.st[i].q = 300 /\ \A j \in 1..3 : Low33.st[i].k[j] = 5 * Tab("SSP33").a[i][j]
  /\ Low33.fin.q = 300 /\ \A j \in 1..3 : Low33.fin.k[j] = 5 * Tab("SSP33").b[j]
  /\ \A i \in 1..10 : Low104.st[i].q = 300 /\ \A j \in 1..10 : Low104.st[i].k[j] = 5 * Tab("SSP104").a[i][j]
  /\ Low104.fin.q = 300 /\ \A j \in 1..10 : Low104.fin.k[j] = 5 * Tab("SSP104").b[j]

OrderOK(ti) ==
  LET T == Tab(ti) s == Len(T.b) p == Order(ti)
      c == [i \in 1..s |-> CSum(T.a, i)]
      ac(v) == [i \in 1..s |-> Sum([j \in 1..s |-> T.a[i][j] * v[j]], s)]
      dot(u, v) == Sum([j \in 1..s |-> u[j] * v[j]], s)
      sq == [i \in 1..s |-> c[i] * c[i]]
      cu == [i \in 1..s |-> c[i] * c[i] * c[i]]
      aac == ac(c) IN
  /\ Sum(T.b, s) = 60
  /\ p >= 2 => 2 * dot(T.b, c) = 3600
  /\ p >= 3 => 3 * dot(T.b, sq) = 216000 /\ 6 * dot(T.b, aac) = 216000
  /\ p >= 4 => /\ 4 * dot(T.b, cu) = 12960000
               /\ 8 * dot(T.b, [i \in 1..s |-> c[i] * aac[i]]) = 12960000
               /\ 12 * dot(T.b, ac(sq)) = 12960000
               /\ 24 * dot(T.b, ac(aac)) = 12960000
Orders == \A ti \in {"Euler", "SSP22", "SSP33", "SSP104"} : OrderOK(ti)

ASSUME RealisesTableau /\ Orders

(* ------------------- histories of multistep integrators ------------------ *)
(* ring of the last s accepted steps; attempts may be rejected.  fam "k2",   *)
(* "k3": the data are t^p of the step's time (in ticks, TPU = 1)             *)
VARIABLES hist, s, p, t, nrej
vars == <<hist, s, p, t, nrej>>
Pow(x, n) == CASE n = 0 -> 1 [] n = 1 -> x [] n = 2 -> x * x [] n = 3 -> x * x * x
Rate(x, n) == CASE n = 0 -> 0 [] n = 1 -> 1 [] n = 2 -> 2 * x [] n = 3 -> 3 * x * x
Init == /\ s \in {3, 4, 5} /\ p \in 0..3 /\ t = 0 /\ nrej = 0
        /\ hist = <<[t |-> 0, q |-> <<Pow(0, p)>>, k |-> <<Rate(0, p)>>]>>
Accept == /\ Len(hist) < s + 1 /\ \E h \in Lens : t' = t + h
          /\ hist' = Append(hist, [t |-> t', q |-> <<Pow(t', p)>>, k |-> <<Rate(t', p)>>])
          /\ UNCHANGED <<s, p, nrej>>
Reject == /\ nrej < 1 /\ nrej' = nrej + 1 /\ UNCHANGED <<hist, s, p, t>>   \* leaves no trace in the history
Next == Accept \/ Reject
Spec == Init /\ [][Next]_vars
(* a further step of any length h reproduces the polynomial                  *)
Exact ==
  Len(hist) >= s =>
   LET n == Len(hist) o == hist[n - s + 1] c == hist[n] H == c.t - o.t IN
   \A h \in Lens :
     /\ p <= 2 => K2(c.q, c.k, o.q, h, H, 1) = Pow(c.t + h, p)
     /\ (p <= 3 /\ s >= 4) => K3(c.q, c.k, o.q, o.k, h, H, 1) = Pow(c.t + h, p)
Ordered == \A j \in 1..(Len(hist) - 1) : hist[j].t < hist[j + 1].t
===============================================================================
