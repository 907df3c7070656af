----------------------------- MODULE SolutionGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES hist, n
H(r) == hist' = Append(hist, r) /\ n' = n + 1
R(S) == RandomElement(IF n >= 0 THEN S ELSE {})
Req == LET p == R({"pax", "beta"}) i == R({1, 2, 3}) IN
       [op |-> "solve", x |-> R({1, 2, 4}), prof |-> p, ip |-> R({-1, 1}) * i, par |-> IF p = "beta" THEN R({15, 30}) ELSE R({2, 4}) * i * i, bl |-> R({0, 0, 0, 3})]
GInit == n = 0 /\ hist = <<>>
GNext == \/ n = 0 /\ H([op |-> "make", mesh |-> R({1, 1, 1, 2, 3}), bnd |-> R({1, 2}), m |-> R({1, 2})])
         \/ n > 0 /\ n < Depth /\ \E k \in 1..3 : H(Req)
         \/ n > 1 /\ n < Depth /\ H([op |-> "again"])
         \/ n > 1 /\ n < Depth /\ H([op |-> "freeze"])
         \/ n > 0 /\ n < Depth /\ H([op |-> "kick", k |-> R(1..4)])
         \/ n > 1 /\ n < Depth /\ H([op |-> "make", mesh |-> R({1, 1, 2, 3}), bnd |-> R({1, 2}), m |-> R({1, 2})])
         \/ n = Depth /\ PrintT("@@" \o ToJson(hist)) /\ n' = n + 1 /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, n>>
=============================================================================
