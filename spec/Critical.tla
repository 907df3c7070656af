------------------------------ MODULE Critical ------------------------------
(* What an analysis of a flux map must report: the magnetic axis, the other   *)
(* O-points, and the X-points that bound the plasma, in order.                *)
(*                                                                            *)
(* A map is given by its critical points.  Each is a record                   *)
(*   [r, z]  position in 1e-5 m, [p] flux in 1e-6, [t] "O" or "X",            *)
(*   [mono]  flux monotonic on the straight line from the primary O-point     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sq(x) == x * x
Dist2(p, m) == Sq((p.r - m.r) \div 100) + Sq((p.z - m.z) \div 100)    \* mm^2, no overflow
AbsV(x) == IF x < 0 THEN -x ELSE x

OPoints(map) == {p \in map : p.t = "O"}
\* the primary O-point is the one nearest to the middle of the domain
IsPrimary(map, mid, p) == p \in OPoints(map) /\ \A q \in OPoints(map) : Dist2(p, mid) <= Dist2(q, mid)
Primary(map, mid) == CHOOSE p \in OPoints(map) : IsPrimary(map, mid, p)
\* X-points reported: all, or only those reached monotonically from the axis
XPoints(map, discard) == {p \in map : p.t = "X" /\ (discard => p.mono)}
FluxDist(p, ax) == AbsV(p.p - ax.p)
\* a sequence of reported points is an answer for the map
Same(q, p, tol) == AbsV(q.r - p.r) <= tol /\ AbsV(q.z - p.z) <= tol
Matches(seq, S, tol) ==
  /\ \A p \in S : Cardinality({i \in 1..Len(seq) : Same(seq[i], p, tol)}) = 1
  /\ \A i \in 1..Len(seq) : \E p \in S : Same(seq[i], p, tol)
FluxRight(seq, S, tol, ptol) ==
  \A i \in 1..Len(seq) : \A p \in S : Same(seq[i], p, tol) => AbsV(seq[i].p - p.p) <= ptol
OrderedBy(seq, F(_)) == \A i \in 1..(Len(seq) - 1) : F(seq[i]) <= F(seq[i + 1])

(* ------- a small model: maps over a lattice, and the selection process ---- *)
CONSTANTS Lattice, FluxVals
VARIABLES map, todo, op, xp, pc
cvars == <<map, todo, op, xp, pc>>
Pt(r, z, p, t, m) == [r |-> r, z |-> z, p |-> p, t |-> t, mono |-> m]
Mid == [r |-> 100, z |-> 100]
Pts == {Pt(r, z, p, t, m) : r \in Lattice, z \in Lattice, p \in FluxVals, t \in {"O", "X"}, m \in BOOLEAN}
Init == /\ map \in {{}} \cup {{a, b, c} : a \in Pts, b \in Pts, c \in {x \in Pts : x.r = 100}}
        /\ todo = map /\ op = <<>> /\ xp = <<>> /\ pc = "scan"
\* candidates are met in any order
Scan == /\ pc = "scan" /\ todo # {}
        /\ \E p \in todo : /\ todo' = todo \ {p}
                           /\ IF p.t = "O" THEN op' = Append(op, p) /\ xp' = xp ELSE xp' = Append(xp, p) /\ op' = op
        /\ UNCHANGED <<map, pc>>
Insert(s, p, F(_)) == LET k == Cardinality({i \in 1..Len(s) : F(s[i]) <= F(p)}) IN
                      SubSeq(s, 1, k) \o <<p>> \o SubSeq(s, k + 1, Len(s))
RECURSIVE Sorted(_, _)
Sorted(s, m) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(Tail(s), m), Head(s), LAMBDA q : Dist2(q, m))
RECURSIVE SortedX(_, _)
SortedX(s, ax) == IF s = <<>> THEN <<>> ELSE Insert(SortedX(Tail(s), ax), Head(s), LAMBDA q : FluxDist(q, ax))
Order == /\ pc = "scan" /\ todo = {} /\ op # <<>>
         /\ LET so == Sorted(op, Mid) IN
            op' = so /\ xp' = SortedX(SelectSeq(xp, LAMBDA p : p.mono), so[1])
         /\ pc' = "done" /\ UNCHANGED <<map, todo>>
Next == Scan \/ Order
Spec == Init /\ [][Next]_cvars
Range(s) == {s[i] : i \in 1..Len(s)}
\* whatever the order of discovery, the answer is the specified one
Answer == pc = "done" =>
  /\ Range(op) = OPoints(map) /\ IsPrimary(map, Mid, op[1])
  /\ Range(xp) = XPoints(map, TRUE)
  /\ OrderedBy(op, LAMBDA q : Dist2(q, Mid)) /\ OrderedBy(xp, LAMBDA q : FluxDist(q, op[1]))
=============================================================================
