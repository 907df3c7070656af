------------------------------ MODULE Boundary ------------------------------
(* Where the plasma ends: the last closed flux surface is bounded by the      *)
(* X-point or, when limiters are checked and there is a wall, by the wall     *)
(* point whose flux is closest to that of the magnetic axis.                  *)
(* Facts of a flux map: ax (axis flux), hasx and px (primary X-point flux),   *)
(* pl (flux at the wall contact point), edge (flux at the mesh corner).       *)
EXTENDS Integers, TLC
CONSTANTS Vals
NONE == 2000000001
AbsB(x) == IF x < 0 THEN -x ELSE x
Further(a, b, ax) == AbsB(a - ax) > AbsB(b - ax)

Select(check, wall, fixed, f) ==
  IF check /\ wall THEN
    IF f.hasx THEN IF Further(f.pl, f.px, f.ax) THEN [b |-> f.px, lim |-> FALSE] ELSE [b |-> f.pl, lim |-> TRUE]
    ELSE [b |-> f.pl, lim |-> TRUE]
  ELSE IF f.hasx THEN [b |-> f.px, lim |-> FALSE]
  ELSE IF fixed THEN [b |-> f.edge, lim |-> FALSE]
  ELSE [b |-> NONE, lim |-> FALSE]

VARIABLES wall, fixed, check, flux, res
bvars == <<wall, fixed, check, flux, res>>
Fl(ax, hx, px, pl, e) == [ax |-> ax, hasx |-> hx, px |-> px, pl |-> pl, edge |-> e]
Maps == {Fl(0, h, px, pl, -9) : h \in BOOLEAN, px \in Vals, pl \in Vals}
Init == wall \in BOOLEAN /\ fixed \in BOOLEAN /\ check \in BOOLEAN /\ flux \in Maps /\ res = Select(check, wall, fixed, flux)
\* the user switches limiter checking on or off; the next solve takes notice
SetCheck(b) == check' = b /\ UNCHANGED <<wall, fixed, flux, res>>
Solve(f) == flux' = f /\ res' = Select(check, wall, fixed, f) /\ UNCHANGED <<wall, fixed, check>>
\* the user gives the machine another wall, or none
SetWall(b) == wall' = b /\ UNCHANGED <<fixed, check, flux, res>>
Next == (\E b \in BOOLEAN : SetWall(b)) \/ (\E b \in BOOLEAN : SetCheck(b)) \/ (\E f \in Maps : Solve(f))
Spec == Init /\ [][Next]_bvars

Neg(f) == Fl(-f.ax, f.hasx, -f.px, -f.pl, -f.edge)
NegB(x) == IF x = NONE THEN NONE ELSE -x
\* reversing the plasma current mirrors the result
SignSymmetric == LET r == Select(check, wall, fixed, flux)  q == Select(check, wall, fixed, Neg(flux)) IN
                 q.b = NegB(r.b) /\ q.lim = r.lim
\* the boundary is never outside the separatrix, nor outside a checked wall
InsideSeparatrix == (flux.hasx /\ res.b # NONE) => ~ Further(res.b, flux.px, flux.ax)
LimitedNeedsWall == [][(res' # res \/ flux' # flux) => (res'.lim => (check /\ wall))]_bvars
LimitedMeansContact == res.lim => res.b = flux.pl
SmallVals == {-3, -2, 2, 4}
=============================================================================
