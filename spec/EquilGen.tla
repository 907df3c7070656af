------------------------------ MODULE EquilGen ------------------------------
EXTENDS Equil, Json
VARIABLE hist
CONSTANT Depth
gv == <<conf, cur, ctl, amp, shp, hist>>
H(r) == hist' = Append(hist, r)
GInit == \E c \in Configs, c0 \in [1..N -> CurVals], k0 \in {<<TRUE, TRUE, TRUE>>, <<TRUE, FALSE, TRUE>>, <<FALSE, TRUE, FALSE>>} :
            Start(c, c0, k0) /\ hist = <<[op |-> "start", c |-> c, cur |-> c0, ctl |-> k0]>>
More == Len(hist) <= Depth
GNext == \/ More /\ \E i \in 1..N, v \in CurVals : SetCurrent(i, v) /\ H([op |-> "setcur", i |-> i, v |-> v])
         \/ More /\ \E i \in 1..N : SetControl(i, ~ctl[i]) /\ H([op |-> "setctl", i |-> i, v |-> ~ctl[i]])
         \/ More /\ \E d \in [1..N -> {0, 1}] : Adjust(d) /\ H([op |-> "adjust", d |-> d])
         \/ More /\ \E a \in AmpVals, s \in Shapes : Solve(a, s) /\ H([op |-> "solve", a |-> a, s |-> s])
         \/ Len(hist) = Depth + 1 /\ PrintT("@@" \o ToJson(hist)) /\ H([op |-> "end"]) /\ UNCHANGED evars
GSpec == GInit /\ [][GNext]_gv
=============================================================================
