----------------------------- MODULE CriticalGen -----------------------------
(* Flux maps to analyse: the positions of the extrema of g and h (hundredths  *)
(* of a metre from the axis, 0: none), rotation, sign, mesh, axis offset.     *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, pc
Space == [u1 : {0, 38, 52}, u2 : {0, 41, 60}, v1 : {0, 55, 80}, v2 : {0, 62, 85}, th : {0, 17, -40}, s : {1, -1},
          mesh : 1..4, off : 1..6, amp : {1, 20}]
\* two X-points d hundredths of a metre on either side of one place
Snow == [fam : {2}, d : {2, 3, 4, 5, 6, 8, 12}, th : {0, 17, -40, 90}, s : {1, -1}, mesh : 1..6, off : 1..6, amp : {20, 60}]
GInit == c \in Space \cup Snow /\ pc = 0
GNext == pc = 0 /\ pc' = 1 /\ PrintT("@@" \o ToJson(c)) /\ UNCHANGED c
GSpec == GInit /\ [][GNext]_<<c, pc>>
=============================================================================
