-------------------------------- MODULE Store --------------------------------
(* Equilibria written to files and read back.  The live equilibrium and what  *)
(* each file holds have the same structure:                                   *)
(*   els[i]  kind, current, control flag, position of the element labelled i  *)
(*   pid, ip the plasma flux (its identity) and plasma current                *)
(*   conf    mesh, domain, wall, boundary method                              *)
(* Reading makes the live equilibrium what the file holds, whatever happened  *)
(* to the live one since it was written.  Kinds a file has no form for are    *)
(* refused when writing.                                                      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Files, Unsupported
VARIABLES live, disk
stvars == <<live, disk>>
Nothing == [els |-> <<>>, pid |-> -1, ip |-> 0, conf |-> 0]
Storable(s) == \A i \in 1..Len(s.els) : s.els[i].kind \notin Unsupported
SetCur(i, v) == live' = [live EXCEPT !.els[i].cur = v] /\ UNCHANGED disk
SetCtl(i, b) == live' = [live EXCEPT !.els[i].ctl = b] /\ UNCHANGED disk
Move(i, p) == live' = [live EXCEPT !.els[i].pos = p] /\ UNCHANGED disk
Solve(k, c) == live' = [live EXCEPT !.pid = k, !.ip = c] /\ UNCHANGED disk
\* a refused write leaves a file nobody may rely on
Write(f, ok) == /\ disk' = [disk EXCEPT ![f] = IF ok THEN live ELSE Nothing]
                /\ UNCHANGED live
Read(f) == disk[f] # Nothing /\ live' = disk[f] /\ UNCHANGED disk
(* ------------------------- small instance for TLC ------------------------ *)
El(k) == [kind |-> k, cur |-> 0, ctl |-> TRUE, pos |-> 1]
Init == /\ \E k \in {"coil", "precalc"} : live = [els |-> <<El("coil"), El(k)>>, pid |-> 0, ip |-> 0, conf |-> 1]
        /\ disk = [f \in Files |-> Nothing]
Next == \/ \E i \in 1..2, v \in {0, 1} : SetCur(i, v)
        \/ \E i \in 1..2, b \in BOOLEAN : SetCtl(i, b)
        \/ Move(1, 2)
        \/ Solve(1, 1)
        \/ \E f \in Files : Write(f, Storable(live))
        \/ \E f \in Files : Read(f)
Spec == Init /\ [][Next]_stvars
\* changing the live equilibrium never changes a file, writing one file no other
FilesIndependent == [][(live' # live => disk' = disk) /\ (\E f \in Files : \A g \in Files \ {f} : disk'[g] = disk[g])]_stvars
\* whatever a file holds can be read, and writing it again changes nothing
Idempotent == \A f \in Files : disk[f] # Nothing => Storable(disk[f])
NeverForeign == \A f \in Files : disk[f] # Nothing => disk[f].conf = live.conf /\ Len(disk[f].els) = Len(live.els)
=============================================================================
