----------------------------- MODULE ProfileGen ------------------------------
EXTENDS Profile, Json
CONSTANTS Depth
VARIABLES conf, hist
gv == <<kind, m, n, ip, pax, map, fit, conf, hist>>
Cf == [wall : 0..4, mesh : 1..3, s : {1, -1}, chk : BOOLEAN, raxis : {100, 80}, fvac : {3, -3, 5}, ov : {0, 60, 80}]
GInit == Init /\ conf \in Cf /\ hist = <<[op |-> "make", kind |-> kind, m |-> m, n |-> n, ip |-> ip, pax |-> pax]>>
H(r) == hist' = Append(hist, r) /\ UNCHANGED conf
GNext == \/ Len(hist) <= Depth /\ \E k \in Maps : Evaluate(k) /\ H([op |-> "eval", map |-> k])
         \/ Len(hist) <= Depth /\ \E v \in Ips : SetIp(v) /\ H([op |-> "ip", v |-> v])
         \/ Len(hist) <= Depth /\ \E v \in Paxs : SetPax(v) /\ H([op |-> "pax", v |-> v])
         \/ Len(hist) = Depth + 1 /\ PrintT("@@" \o ToJson([conf |-> conf, hist |-> hist])) /\ H([op |-> "end"]) /\ UNCHANGED pvars
GSpec == GInit /\ [][GNext]_gv
=============================================================================
