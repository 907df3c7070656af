----------------------------- MODULE SensorsGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES hist, n
NE == 6
NS == 11
\* sensors asked: all of them through the machine, or one directly
H(r) == hist' = Append(hist, r)
GInit == \E b \in {1, 2}, o \in {{}, {2, 5, 9}, {1, 3, 4, 6, 11}, {7, 8, 10}} : n = 0 /\ hist = <<[op |-> "make", base |-> b, off |-> [i \in 1..NS |-> i \in o]]>>
GNext == \/ n < Depth /\ n' = n + 1 /\ \E j \in 1..NE, v \in {-3, 0, 2, 5} : H([op |-> "cur", j |-> j, v |-> v])
         \/ n < Depth /\ n' = n + 1 /\ \E p \in {1, 2} : H([op |-> "move", p |-> p])
         \/ n < Depth /\ n' = n + 1 /\ \E a \in {1, 3, -2}, s \in {1, 2} : H([op |-> "solve", a |-> a, s |-> s])
         \/ n < Depth /\ n' = n + 1 /\ \E i \in 1..NS, b \in BOOLEAN : H([op |-> "switch", i |-> i, b |-> b])
         \/ n < Depth /\ n' = n + 1 /\ \E how \in {"eq", "none", "print", "printnone"} : H([op |-> "take", how |-> how])
         \/ n < Depth /\ n' = n + 1 /\ \E i \in 1..NS, w \in BOOLEAN : H([op |-> "one", i |-> i, w |-> w])
         \/ n = Depth /\ n' = n + 1 /\ PrintT("@@" \o ToJson(hist)) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, n>>
=============================================================================
