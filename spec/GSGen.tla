-------------------------------- MODULE GSGen --------------------------------
EXTENDS GS, Json
VARIABLE hist
CONSTANT Depth
gv == <<conf, kind, poly, amp, shp, hist>>
H(r) == hist' = Append(hist, r)
Rnd(S) == RandomElement(S)
GInit == \E c \in Confs : Start(c) /\ hist = <<[op |-> "start", c |-> c]>>
More == Len(hist) <= Depth
GNext == \/ More /\ LET T == Terms(conf.order) IN
              \E k \in 1..MaxTerms : \E p \in {[i \in 1..k |-> Rnd(T)]} :
                 SolvePoly(p) /\ H([op |-> "poly", p |-> p, rhs |-> DeltaStar(p)])
         \/ More /\ \E a \in Amps : SolveFixed(a) /\ H([op |-> "fixed", a |-> a])
         \/ More /\ \E a \in Amps, s \in {1, 2} : SolveFree(a, s) /\ H([op |-> "free", a |-> a, s |-> s])
         \/ Len(hist) = Depth + 1 /\ PrintT("@@" \o ToJson(hist)) /\ H([op |-> "end"]) /\ UNCHANGED gsvars
GSpec == GInit /\ [][GNext]_gv
=============================================================================
