----------------------------- MODULE ControlGen ------------------------------
(* Histories for the real control system: element and constraint numbers.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, ctl
NE == 6
CurVals == {-3, -1, 0, 2, 5}
GInit == \E f \in [1..NE -> BOOLEAN], b \in {1, 2, 3} : ctl = f /\ hist = <<[op |-> "make", ctl |-> f, base |-> b]>>
Run == [op : {"run"}, x : {0, 1, 2, 3}, iso : {0, 1, 2}, psi : {0, 1, 2}, g : {12, 10, 8}, lim : {"none", "wide", "tight", "total", "both"}]
Fit == [op : {"fit2d"}, w : {"none", "float", "array", "zeros"}, off : {0, 3}, tgt : {1, 2}]
Adv == [op : {"adv"}, lim : {"none", "wide", "tight"}, w : {"none", "array"}]
H(r) == hist' = Append(hist, r)
GNext == \/ Len(hist) <= Depth /\ \E i \in 1..NE, v \in CurVals : H([op |-> "cur", i |-> i, v |-> v]) /\ UNCHANGED ctl
         \/ Len(hist) <= Depth /\ \E i \in 1..NE, b \in BOOLEAN : H([op |-> "ctl", i |-> i, b |-> b]) /\ ctl' = [ctl EXCEPT ![i] = b]
         \/ Len(hist) <= Depth /\ \E a \in {1, 3, -2}, s \in {1, 2} : H([op |-> "plasma", a |-> a, s |-> s]) /\ UNCHANGED ctl
         \/ Len(hist) <= Depth /\ \E r \in Run : H(r) /\ UNCHANGED ctl
         \* what a run left, changed by a few Ampere, and the same run again
         \/ /\ Len(hist) <= Depth /\ hist[Len(hist)].op = "run"
            /\ \E i \in 1..NE, v \in {-40, 3}, k \in 1..30 : hist' = hist \o <<[op |-> "nudge", i |-> i, v |-> v], hist[Len(hist)], [op |-> "nudge", i |-> i, v |-> 0], hist[Len(hist)]>>
            /\ UNCHANGED ctl
         \/ Len(hist) <= Depth /\ \E r \in Fit : H(r) /\ UNCHANGED ctl
         \/ Len(hist) <= Depth /\ \E r \in Adv : H(r) /\ UNCHANGED ctl
         \/ Len(hist) > Depth /\ hist[Len(hist)].op # "end" /\ PrintT("@@" \o ToJson(hist)) /\ H([op |-> "end"]) /\ UNCHANGED ctl
GSpec == GInit /\ [][GNext]_<<hist, ctl>>
=============================================================================
