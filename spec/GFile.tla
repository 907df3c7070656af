-------------------------------- MODULE GFile --------------------------------
(* Equilibria exchanged as G-EQDSK and DivGeo text files.                     *)
(*   sol     identity of the equilibrium solved last                          *)
(*   wall    the wall of the live machine (0: none)                           *)
(*   disk[f] what file f holds: format, equilibrium and wall when written     *)
(*   got     what the last reading returned                                   *)
(* A G-EQDSK file is read into a machine of given coils, whatever currents    *)
(* these carry; the machine takes the file's wall, if there is one.           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Files
VARIABLES sol, wall, disk, got
gfvars == <<sol, wall, disk, got>>
Empty == [fmt |-> "none", sol |-> 0, wall |-> 0]
\* a new solution on a machine with wall w
Solve(k, w) == sol' = k /\ wall' = w /\ UNCHANGED <<disk, got>>
Write(f, fmt) == disk' = [disk EXCEPT ![f] = [fmt |-> fmt, sol |-> sol, wall |-> wall]] /\ UNCHANGED <<sol, wall, got>>
\* look at the file only
Parse(f) == UNCHANGED gfvars
\* the wall of a machine with wall w after reading file f
WallAfter(f, w) == IF disk[f].wall = 0 THEN w ELSE disk[f].wall
\* into another machine which had wall w
Read(f, w) == /\ disk[f].fmt = "g"
              /\ got' = [disk[f] EXCEPT !.wall = WallAfter(f, w)]
              /\ UNCHANGED <<sol, wall, disk>>
\* into the machine in use: it now has the file's equilibrium
ReadBack(f) == /\ disk[f].fmt = "g"
               /\ got' = [disk[f] EXCEPT !.wall = WallAfter(f, wall)]
               /\ sol' = disk[f].sol /\ wall' = WallAfter(f, wall)
               /\ UNCHANGED disk
(* ------------------------- small instance for TLC ------------------------ *)
Init == sol = 1 /\ wall \in 0..2 /\ disk = [f \in Files |-> Empty] /\ got = Empty
Next == \/ \E k \in 1..3, w \in 0..2 : Solve(k, w)
        \/ \E f \in Files, fmt \in {"g", "d"} : Write(f, fmt)
        \/ \E f \in Files, w \in 0..2 : Read(f, w)
        \/ \E f \in Files : ReadBack(f) \/ Parse(f)
Spec == Init /\ [][Next]_gfvars
(* ------------------------------ properties ------------------------------- *)
FilesIndependent == [][/\ (\E f \in Files : \A g \in Files \ {f} : disk'[g] = disk[g])
                       /\ (disk' # disk => UNCHANGED <<sol, wall, got>>)]_gfvars
ReadingGivesWhatWasWritten == [][got' # got => \E f \in Files : disk[f].fmt = "g" /\ got'.sol = disk[f].sol
                                                               /\ (disk[f].wall # 0 => got'.wall = disk[f].wall)]_gfvars
\* reading into the machine in use and writing again gives the same file
RoundTrip == [][sol' # sol /\ got' # got => got'.sol = sol' /\ got'.wall = wall']_gfvars
=============================================================================
