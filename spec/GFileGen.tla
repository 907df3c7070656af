------------------------------ MODULE GFileGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, What
VARIABLES hist, n, w
H(r) == hist' = Append(hist, r) /\ n' = n + 1
Go == n < Depth
Maps == What = "map"
GInit == /\ n = 0 /\ w = {}
         /\ IF Maps THEN \E m \in 1..3, wl \in 0..4, s \in {1, -1}, k \in 1..8, b \in BOOLEAN, f \in {1, -1} :
                           hist = <<[op |-> "make", mesh |-> m, wall |-> wl, s |-> s, f |-> k, chk |-> b, fs |-> f]>>
                    ELSE \E c \in 1..8 : hist = <<[op |-> "make", c |-> c]>>
GNext == \/ Go /\ Maps /\ \E k \in 1..8, b \in BOOLEAN : H([op |-> "solve", f |-> k, chk |-> b]) /\ UNCHANGED w
         \/ Go /\ Maps /\ \E wl \in 0..4, j \in 1..2 : H([op |-> "wall", w |-> wl]) /\ UNCHANGED w
         \/ Go /\ ~Maps /\ \E c \in 1..8 : H([op |-> "make", c |-> c]) /\ UNCHANGED w
         \/ Go /\ \E f \in 1..2, fmt \in {"g", "d"}, lab \in 0..2, ox \in BOOLEAN : (fmt = "g" \/ Maps) /\
                  H([op |-> "write", f |-> f, fmt |-> fmt, lab |-> lab, ox |-> ox]) /\ w' = (w \ {<<f, "g">>, <<f, "d">>}) \cup {<<f, fmt>>}
         \/ Go /\ \E x \in w, j \in 1..6 : H([op |-> "parse", f |-> x[1]]) /\ UNCHANGED w
         \/ Go /\ ~Maps /\ \E x \in w, m \in {"fresh", "busy", "walled", "live"}, d \in 0..4, v \in {"plain", "plain", "plain", "cocos", "mesh"}, s \in BOOLEAN :
                  x[2] = "g" /\ (d # 0 => v = "plain" /\ ~s) /\ H([op |-> "read", f |-> x[1], m |-> m, dom |-> d, v |-> v, sol |-> s]) /\ UNCHANGED w
         \/ n = Depth /\ PrintT("@@" \o ToJson(hist)) /\ n' = n + 1 /\ UNCHANGED <<hist, w>>
GSpec == GInit /\ [][GNext]_<<hist, n, w>>
=============================================================================
