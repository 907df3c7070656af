------------------------------ MODULE StoreGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANT Depth
VARIABLES hist, n, w
Kinds == {"coil", "shaped", "triangle", "filament", "filament1", "multi1", "multilist", "multimir", "solenoid", "circuit", "circuit0", "circuit1"}
\* odd: 1 to 3 adds an element of a kind that cannot be stored
H(r) == hist' = Append(hist, r) /\ n' = n + 1
GInit == \E c \in 1..3, b \in {"free", "fixed", "hagenow"}, wl \in {0, 1, 2}, k \in RandomSubset(40, [1..4 -> Kinds]), odd \in 0..11, tn \in {1, 3, 250}, c0 \in {0, 12345} :
            n = 0 /\ w = {} /\ hist = <<[op |-> "make", mesh |-> c, bnd |-> b, wall |-> wl, odd |-> odd, turns |-> tn, ip0 |-> c0, kinds |-> k]>>
Go == n < Depth
GNext == \/ Go /\ \E i \in 1..4, v \in {-3, 0, 2, 5} : H([op |-> "cur", i |-> i, v |-> v]) /\ UNCHANGED w
         \/ Go /\ \E i \in 1..4, b \in BOOLEAN : H([op |-> "ctl", i |-> i, b |-> b]) /\ UNCHANGED w
         \/ Go /\ \E i \in 1..4, p \in 1..3 : H([op |-> "move", i |-> i, p |-> p]) /\ UNCHANGED w
         \/ Go /\ \E a \in {0, 1, -2}, s \in {1, 2} : H([op |-> "solve", a |-> a, s |-> s]) /\ UNCHANGED w
         \/ Go /\ \E f \in 1..2, k \in 1..4 : H([op |-> "write", f |-> f]) /\ w' = w \cup {f}
         \/ Go /\ \E f \in w, k \in 1..6 : H([op |-> "read", f |-> f]) /\ UNCHANGED w
         \/ n = Depth /\ PrintT("@@" \o ToJson(hist)) /\ n' = n + 1 /\ UNCHANGED <<hist, w>>
GSpec == GInit /\ [][GNext]_<<hist, n, w>>
=============================================================================
