------------------------------- MODULE MolRules -------------------------------
(* Method-of-lines time integrators.  Data are sequences of fixed-point      *)
(* numbers; rates likewise; a step length h counts ticks, TPU to the unit.   *)
(* Tableaux are in 60ths.                                                    *)
EXTENDS Integers, Sequences
CONSTANTS TPU
DivR(a, b) == (2 * a + b) \div (2 * b)
Abs(x) == IF x < 0 THEN -x ELSE x

(* ------------------------ Runge-Kutta tableaux --------------------------- *)
Row(s, f(_)) == [j \in 1..s |-> f(j)]
A104(i) == LET f(j) == IF j >= i THEN 0 ELSE IF i <= 5 THEN 10 ELSE IF j <= 5 THEN 4 ELSE 10 IN Row(10, f)
Tab(ti) ==
  CASE ti = "Euler"  -> [a |-> <<<<0>>>>, b |-> <<60>>]
    [] ti = "SSP22"  -> [a |-> <<<<0, 0>>, <<60, 0>>>>, b |-> <<30, 30>>]
    [] ti = "SSP33"  -> [a |-> <<<<0, 0, 0>>, <<60, 0, 0>>, <<15, 15, 0>>>>, b |-> <<10, 10, 40>>]
    [] ti = "SSP104" -> [a |-> [i \in 1..10 |-> A104(i)], b |-> [i \in 1..10 |-> 6]]
    [] OTHER -> [a |-> <<<<0>>>>, b |-> <<60>>]
Order(ti) == CASE ti = "Euler" -> 1 [] ti = "SSP22" -> 2 [] ti = "SSP33" -> 3 [] ti = "SSP104" -> 4
RECURSIVE Sum(_,_)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
CSum(a, i) == Sum(a[i], Len(a[i]))

(* value of component x after adding h times the combination w (60ths) of    *)
(* the rates ks to q                                                         *)
Plus(q, h, w, ks, x) == q[x] + DivR(h * Sum([j \in 1..Len(ks) |-> w[j] * ks[j][x]], Len(ks)), 60 * TPU)

(* ----------------------- linear multistep methods ------------------------ *)
(* o: oldest step used, H: time from it to the current one, h: step length   *)
K2(q, k, qo, h, H, x) ==
  DivR(((H + h) * (H - h) * q[x]) + ((H + h) * DivR(H * h * k[x], TPU)) + (h * h * qo[x]), H * H)
(* all three parts over H^3 / h^3, cleared                                   *)
K3(q, k, qo, ko, h, H, x) ==
  DivR(((H + h) * (H + h) * (((H - (2 * h)) * q[x]) + DivR(H * h * k[x], TPU)))
       + ((((H - (2 * h)) * (H + h) * h) + (4 * (H + h) * h * h) - (H * H * h)) * qo[x])
       + ((H + h) * h * DivR(H * h * ko[x], TPU)), H * H * H)
(* general: al, be in 60ths, oldest first                                    *)
Gen(hist, al, be, h, x) ==
  LET s == Len(al)
      n == Len(hist) IN
  DivR(Sum([j \in 1..s |-> al[j] * hist[n - s + j].q[x]], s), 60) + DivR(h * Sum([j \in 1..s |-> be[j] * hist[n - s + j].k[x]], s), 60 * TPU)
===============================================================================
