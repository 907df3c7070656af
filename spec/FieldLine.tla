------------------------------ MODULE FieldLine ------------------------------
(* Field lines followed to given toroidal angles.  A line is on a flux        *)
(* surface; where it is depends only on the toroidal angle from its start     *)
(* (offset, in steps), so going on in pieces is going at once, and going back *)
(* the same angle returns to the start.  One turn has Turn steps; on a        *)
(* surface of safety factor P/Q the poloidal phase advances Q/P of a turn.    *)
(* An open line ends where it meets the wall and never moves again in that    *)
(* direction.  total is the length walked: it only grows.                     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Turn
VARIABLES offset, total, lo, hi      \* lo..hi: offsets between the walls (far away for closed lines)
flv == <<offset, total, lo, hi>>
Clip(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
To(x, n, back) == Clip(IF back THEN x - n ELSE x + n, lo, hi)
Abs0(x) == IF x < 0 THEN -x ELSE x
Follow(n, back) == /\ offset' = To(offset, n, back)
                   /\ total' = total + Abs0(offset' - offset)
                   /\ UNCHANGED <<lo, hi>>
Restart == offset' = 0 /\ total' = 0 /\ UNCHANGED <<lo, hi>>
(* ------------------------- small instance for TLC ------------------------ *)
Phase(x, p, q) == (x * q) % (p * Turn)        \* in units of 1/(p Turn) of a poloidal turn
Init == offset = 0 /\ total = 0 /\ \E a \in {-1000, -3, 0}, b \in {1000, 0, 4} : lo = a /\ hi = b
Next == total < 24 /\ \/ \E n \in 0..5, b \in BOOLEAN : Follow(n, b)
                      \/ Restart
Spec == Init /\ [][Next]_flv
BetweenWalls == lo <= offset /\ offset <= hi
Pieces == \A n \in 0..4, m \in 0..4, b \in BOOLEAN : To(To(offset, n, b), m, b) = To(offset, n + m, b)
Reversible == \A n \in 0..6, b \in BOOLEAN : (lo <= offset - n /\ offset + n <= hi) => To(To(offset, n, b), n, ~b) = offset
Rational == \A p \in {1, 2, 3}, q \in {1, 2} : Phase(offset + p * Turn, p, q) = Phase(offset, p, q)
AtTheWall == \A b \in BOOLEAN : offset = (IF b THEN lo ELSE hi) => To(offset, 5, b) = offset
LengthGrows == [][total' >= total \/ (total' = 0 /\ offset' = 0)]_flv
=============================================================================
