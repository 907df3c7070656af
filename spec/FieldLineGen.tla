---------------------------- MODULE FieldLineGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES hist, n
H(r) == hist' = Append(hist, r) /\ n' = n + 1
GInit == n = 0 /\ hist = <<>>
R(S) == RandomElement(IF n >= 0 THEN S ELSE {})
GNext == \/ n = 0 /\ \E k \in 1..8 :
              LET w == R(0..4) IN H([op |-> "make", mesh |-> R(1..3), wall |-> w, s |-> R({-1, 1}), f |-> k, chk |-> R(BOOLEAN), fs |-> R({-1, 1}),
                                     dom |-> R(1..2), fv |-> R(1..3), lines |-> [i \in 1..R(1..4) |-> <<RandomElement({20, 50, 80 + n, 108, 125, 140}), RandomElement(0..(11 + n))>>]])
         \/ n > 0 /\ n < Depth /\ \E k \in 1..4 : H([op |-> "follow", n |-> R({3, 7, 12, 25, 60}), back |-> R(BOOLEAN), m |-> R({1, 2, 5}), a0 |-> R({0, 0, 7}), shape |-> R(0..3), lst |-> R(BOOLEAN)])
         \/ n > 1 /\ n < Depth /\ \E k \in 1..2 : H([op |-> "return"])
         \/ n > 2 /\ n < Depth /\ n % 3 = 0 /\ H([op |-> "restart"])
         \/ n > 0 /\ n < Depth /\ H([op |-> "sol", w |-> R({2, 4}), k |-> R({2, 3, 5}), t |-> R({1, 3}), p |-> R({11, 20})])
         \/ n = Depth /\ PrintT("@@" \o ToJson(hist)) /\ n' = n + 1 /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, n>>
=============================================================================
