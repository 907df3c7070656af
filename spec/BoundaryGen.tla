----------------------------- MODULE BoundaryGen -----------------------------
(* Histories of one equilibrium: which flux maps (by number) are solved for,  *)
(* with limiter checking switched on and off in between.                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, NFlux
VARIABLES conf, hist
Confs == [wall : 0..4, fixed : {FALSE}, mesh : 1..3, s : {1, -1}, chk0 : BOOLEAN, f0 : 1..NFlux]
GInit == conf \in Confs /\ hist = <<>>
H(r) == hist' = Append(hist, r) /\ UNCHANGED conf
GNext == \/ Len(hist) < Depth /\ \E b \in BOOLEAN : H([op |-> "check", b |-> b])
         \/ Len(hist) < Depth /\ \E w \in 0..4 : H([op |-> "wall", w |-> w])
         \/ Len(hist) < Depth /\ \E f \in 1..NFlux : H([op |-> "solve", f |-> f])
         \/ Len(hist) = Depth /\ PrintT("@@" \o ToJson([conf |-> conf, hist |-> hist])) /\ H([op |-> "end"])
GSpec == GInit /\ [][GNext]_<<conf, hist>>
=============================================================================
