------------------------------ MODULE ForcesGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES hist, n
H(r) == hist' = Append(hist, r)
NE == 6
GInit == \E b \in 1..2, y \in 1..2 : n = 0 /\ hist = <<[op |-> "make", base |-> b, lay |-> y]>>
GNext == \/ n < Depth /\ n' = n + 1 /\ \E j \in 1..NE, v \in {-3, 0, 2, 5} : H([op |-> "cur", j |-> j, v |-> v])
         \/ n < Depth /\ n' = n + 1 /\ \E p \in {1, 2} : H([op |-> "move", p |-> p])
         \/ n < Depth /\ n' = n + 1 /\ \E a \in {1, 3, -2}, s \in {1, 2} : H([op |-> "solve", a |-> a, s |-> s])
         \/ n < Depth /\ n' = n + 1 /\ \E how \in {"machine", "machine", "eq", "eqarg", "print", "max"}, k \in 1..4 : H([op |-> "ask", how |-> how])
         \/ n = Depth /\ n' = n + 1 /\ PrintT("@@" \o ToJson(hist)) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, n>>
=============================================================================
