------------------------------- MODULE Profile -------------------------------
(* Plasma profiles.  p' and ff' are a constant times the shape (1 - x^m)^n of *)
(* the normalised flux x; pressure and f are their integrals from the edge,   *)
(* with p = 0 and f = fvac there.  A constrained profile re-fits its          *)
(* constants to every flux map on which it is evaluated.                      *)
(* Fixed point arithmetic: UNIT = 1.                                          *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ms, Ns, Ips, Paxs, Maps
UNIT == 30000
Mul(a, b) == IF a * b >= 0 THEN (a * b + UNIT \div 2) \div UNIT ELSE -((-a * b + UNIT \div 2) \div UNIT)
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN UNIT ELSE Mul(x, Pow(x, k - 1))
Clip(x) == IF x < 0 THEN 0 ELSE IF x > UNIT THEN UNIT ELSE x
Shape(m, n, x) == Pow(UNIT - Pow(Clip(x), m), n)
Binom(n, k) == CASE k = 0 -> 1 [] k = n -> 1 [] n = 3 -> 3 [] n = 2 -> 2 [] OTHER -> 1
Sgn(k) == IF k % 2 = 0 THEN 1 ELSE -1
\* integral of the shape from x to 1
RECURSIVE Integ(_, _, _, _)
Integ(m, n, x, k) == IF k > n THEN 0
  ELSE Sgn(k) * Binom(n, k) * ((UNIT - Pow(x, m * k + 1)) \div (m * k + 1)) + Integ(m, n, x, k + 1)
Integral(m, n, x) == Integ(m, n, x, 0)

VARIABLES kind, m, n, ip, pax, map, fit
pvars == <<kind, m, n, ip, pax, map, fit>>
Kinds == {"paxis", "betap", "table"}
NoFit == [map |-> 0, ip |-> 0, pax |-> 0]
Make(k, a, b, i, p) == kind = k /\ m = a /\ n = b /\ ip = i /\ pax = p /\ map = 0 /\ fit = NoFit
Valid(a, b) == a >= 0 /\ b >= 0
\* evaluation on a flux map: fits the constants to the parameters as they are now
Evaluate(k) == map' = k /\ fit' = [map |-> k, ip |-> ip, pax |-> pax] /\ UNCHANGED <<kind, m, n, ip, pax>>
SetIp(v) == ip' = v /\ UNCHANGED <<kind, m, n, pax, map, fit>>
SetPax(v) == pax' = v /\ UNCHANGED <<kind, m, n, ip, map, fit>>
Init == \E k \in Kinds, a \in Ms, b \in Ns, i \in Ips, p \in Paxs : Make(k, a, b, i, p)
Next == (\E k \in Maps : Evaluate(k)) \/ (\E v \in Ips : SetIp(v)) \/ (\E v \in Paxs : SetPax(v))
Spec == Init /\ [][Next]_pvars

\* pressure at x in units of the axis pressure
Ratio(x) == (Integral(m, n, x) * 1000) \div (Integral(m, n, 0) \div 30)
(* ------------------------------ properties ------------------------------- *)
Grid == {0, 3750, 7500, 11250, 15000, 18750, 22500, 26250, 30000}
EdgeAndAxis == Ratio(UNIT) = 0 /\ Ratio(0) \in (UNIT - 60)..(UNIT + 60)
Decreasing == \A x, y \in Grid : x < y => Integral(m, n, x) >= Integral(m, n, y) - 5
\* the integral over a cell lies between the end values of the decreasing shape
MeanValue == \A x \in Grid \ {UNIT} : LET d == Integral(m, n, x) - Integral(m, n, x + 3750) IN
               d >= Shape(m, n, x + 3750) \div 8 - 6 /\ d <= Shape(m, n, x) \div 8 + 6
\* changing a parameter takes effect at the next evaluation, and only there
FitIsLastEvaluation == [][(fit' # fit) => (fit'.map = map' /\ fit'.ip = ip /\ fit'.pax = pax)]_pvars
=============================================================================
