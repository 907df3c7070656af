------------------------------ MODULE ShapeGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, NFlux, What
VARIABLES hist, n
H(r) == hist' = Append(hist, r) /\ n' = n + 1
GInit == \E m \in 1..3, w \in 0..4, s \in {1, -1}, k \in 1..NFlux, b \in BOOLEAN, f \in {1, -1} :
           n = 0 /\ hist = <<[op |-> "make", mesh |-> m, wall |-> w, s |-> s, f |-> k, chk |-> b, fs |-> f]>>
Go == n < Depth
NPts == {20, 64, 180, 360}
GNext == \/ Go /\ \E k \in 1..NFlux, b \in BOOLEAN : H([op |-> "solve", f |-> k, chk |-> b])
         \/ Go /\ What = "surf" /\ \E k \in NPts : H([op |-> "sep", n |-> k])
         \/ Go /\ What = "surf" /\ \E k \in NPts : H([op |-> "shape", n |-> k])
         \/ Go /\ What = "surf" /\ \E a \in 1..9 : H([op |-> "q", a |-> a])
         \/ Go /\ What = "surf" /\ \E a \in 1..4 : H([op |-> "rho", a |-> a])
         \/ Go /\ What = "surf" /\ \E z \in -2..2 : H([op |-> "inout", z |-> z])
         \/ Go /\ What = "surf" /\ H([op |-> "wall"])
         \/ Go /\ What = "integ" /\ \E k \in NPts : H([op |-> "integ", n |-> k])
         \/ n = Depth /\ PrintT("@@" \o ToJson(hist)) /\ n' = n + 1 /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, n>>
=============================================================================
