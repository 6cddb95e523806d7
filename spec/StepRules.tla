----------------------------- MODULE StepRules -----------------------------
(* Rules of adaptive time stepping, in integer ticks.  Wave speeds are      *)
(* scaled so that Courant number = speed * length; CM and CD are the        *)
(* maximum and the desired Courant number.                                  *)
EXTENDS Integers, FiniteSets, Sequences

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* length the selection rule asks for.  c: configuration; started: some     *)
(* step has been attempted before; base: largest speed observed last;       *)
(* d: length used last (the configured one before the first attempt)        *)
RuleDt(c, started, base, d) ==
  IF c.variable = 0 \/ ~started THEN d
  ELSE IF base = 0 THEN c.dtmax
  ELSE Min2(c.dtmax, c.cd \div base)

(* shortened only in order to land on the end time                          *)
TruncDt(one, t, tend, d) == IF ~one /\ t + d > tend THEN tend - t ELSE d

Fits(c, s, d) == s * d <= c.cm

(* stage times of the Runge-Kutta integrators, as multiples of dt/12        *)
StageC(ti) ==
  CASE ti = "Euler"  -> <<0>>
    [] ti = "SSP33"  -> <<0, 12, 6>>
    [] ti = "SSP104" -> <<0, 2, 4, 6, 8, 4, 6, 8, 10, 12>>
    [] ti = "RK"     -> <<0, 6, 9>>
    [] OTHER         -> <<0>>
=============================================================================
