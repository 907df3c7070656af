-------------------------------- MODULE Shape --------------------------------
(* Geometry of the plasma boundary, a closed curve given by points <<R, Z>>   *)
(* with integer coordinates.  All quantities are ratios of integers.          *)
(* The boundary changes when the equilibrium does; asking does not.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES pts, asked
shvars == <<pts, asked>>
Idx(p) == 1..Len(p)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
RMax(p) == MaxOf({p[i][1] : i \in Idx(p)})
RMin(p) == MinOf({p[i][1] : i \in Idx(p)})
ZMax(p) == MaxOf({p[i][2] : i \in Idx(p)})
ZMin(p) == MinOf({p[i][2] : i \in Idx(p)})
Rgeo2(p) == RMax(p) + RMin(p)                      \* twice the major radius
A2(p) == RMax(p) - RMin(p)                         \* twice the minor radius
\* the extreme points; w: points that close to the extreme count as extreme
Outer(p, w) == LET m == RMax(p) - w IN {i \in Idx(p) : p[i][1] >= m}
Inner(p, w) == LET m == RMin(p) + w IN {i \in Idx(p) : p[i][1] <= m}
Top(p, w) == LET m == ZMax(p) - w IN {i \in Idx(p) : p[i][2] >= m}
Bottom(p, w) == LET m == ZMin(p) + w IN {i \in Idx(p) : p[i][2] <= m}
Zgeo2s(p, w) == {p[i][2] + p[j][2] : i \in Outer(p, w), j \in Inner(p, w)}
\* numerators over A2
Kappa(p) == ZMax(p) - ZMin(p)
KappaU(p, w) == LET m == 2 * ZMax(p) IN {m - z : z \in Zgeo2s(p, w)}
KappaL(p, w) == LET m == 2 * ZMin(p) IN {z - m : z \in Zgeo2s(p, w)}
DeltaU(p, w) == LET m == Rgeo2(p) IN {m - 2 * p[i][1] : i \in Top(p, w)}
DeltaL(p, w) == LET m == Rgeo2(p) IN {m - 2 * p[i][1] : i \in Bottom(p, w)}
(* ---------------------- small instance for TLC --------------------------- *)
Curve == {<<<<2, 0>>, <<4, 1>>, <<3, 3>>, <<1, 2>>>>, <<<<1, 1>>, <<3, 0>>, <<5, 2>>, <<2, 4>>, <<1, 3>>>>,
          <<<<3, -2>>, <<6, 0>>, <<4, 5>>>>, <<<<2, 2>>, <<4, 0>>, <<6, 2>>, <<4, 4>>>>}
Shift(p, a, b) == [i \in Idx(p) |-> <<p[i][1] + a, p[i][2] + b>>]
Mirror(p) == [i \in Idx(p) |-> <<p[i][1], -p[i][2]>>]
Roll(p) == [i \in Idx(p) |-> p[1 + (i % Len(p))]]
Back(p) == [i \in Idx(p) |-> p[Len(p) + 1 - i]]
Init == pts \in Curve /\ asked = "nothing"
Set(p) == pts' = p /\ asked' = "nothing"
Ask(what) == asked' = what /\ UNCHANGED pts
Small(p) == \A i \in Idx(p) : p[i][1] \in 1..7 /\ p[i][2] \in -6..6
Next == \/ \E q \in {Shift(pts, 1, 0), Shift(pts, -1, 0), Shift(pts, 0, 1), Shift(pts, 0, -1), Mirror(pts), Roll(pts), Back(pts)} : Small(q) /\ Set(q)
        \/ \E w \in {"shape", "q", "inout"} : Ask(w)
Spec == Init /\ [][Next]_shvars
(* ------------------------------ properties ------------------------------- *)
AskingChangesNothing == [][asked' # "nothing" => pts' = pts]_shvars
\* upper and lower halves add up, mirroring exchanges them, moving changes no ratio
Halves == \A z \in Zgeo2s(pts, 0) : (2 * ZMax(pts) - z) + (z - 2 * ZMin(pts)) = 2 * Kappa(pts)
Mirrored == /\ KappaU(Mirror(pts), 0) = KappaL(pts, 0)
            /\ DeltaU(Mirror(pts), 0) = DeltaL(pts, 0)
            /\ Kappa(Mirror(pts)) = Kappa(pts)
Moved == LET q == Shift(pts, 3, -2) IN
           /\ A2(q) = A2(pts) /\ Kappa(q) = Kappa(pts) /\ KappaU(q, 0) = KappaU(pts, 0)
           /\ DeltaU(q, 0) = DeltaU(pts, 0) /\ DeltaL(q, 0) = DeltaL(pts, 0) /\ Rgeo2(q) = Rgeo2(pts) + 6
StartIrrelevant == /\ A2(Roll(pts)) = A2(pts) /\ KappaU(Roll(pts), 0) = KappaU(pts, 0)
                   /\ DeltaU(Back(pts), 0) = DeltaU(pts, 0)
Positive == A2(pts) > 0 /\ Kappa(pts) > 0 /\ \A k \in KappaU(pts, 0) : k >= 0
=============================================================================
