------------------------------- MODULE GridGen -------------------------------
EXTENDS Grid, Json
CONSTANTS Depth, What
VARIABLES hist, n
gv == <<objs, hist, n>>
H(r) == hist' = Append(hist, r) /\ n' = n + 1
Sizes == {9, 17, 33, 65}   \* the boundary integrals need 2^n + 1 points
Map == What = "map"
GInit == /\ n = 0
         /\ \E nx \in (IF Map THEN {9, 17, 33, 16, 21} ELSE {33, 65}), ny \in (IF Map THEN {9, 17, 33, 14, 25} ELSE {33, 65}), d \in 1..2, s \in 1..(IF Map THEN 6 ELSE 3), f \in 1..3, u \in 0..2 :
              /\ Map \/ (nx # 65 \/ ny # 65)
              /\ objs = <<Obj(nx, ny, IF Map THEN d ELSE 1, s, 0, f)>>
              /\ hist = <<[op |-> "make", nx |-> nx, ny |-> ny, dom |-> IF Map THEN d ELSE 1, set |-> s, f |-> f, up |-> u, how |-> What]>>
Go == n < Depth
Big == IF Map THEN 66 ELSE 66
GNext == \/ Go /\ \E i \in Idx : Twice(objs[i].nx) < Big /\ Twice(objs[i].ny) < Big /\ Refine(i) /\ H([op |-> "refine", i |-> i])
         \/ Go /\ \E i \in Idx, nx \in {0, 17, 33, 40}, ny \in {0, 17, 30, 33, 65} :
               /\ (nx > 0 \/ Twice(objs[i].nx) < Big) /\ (ny > 0 \/ Twice(objs[i].ny) < Big)
               /\ Map \/ (nx \notin {17, 40} /\ ny \notin {17, 30})
               /\ RefineTo(i, nx, ny) /\ H([op |-> "refineto", i |-> i, nx |-> nx, ny |-> ny])
         \/ Go /\ \E i \in Idx, k \in 1..4 : objs[i].nx > (IF Map THEN 14 ELSE 60) /\ objs[i].ny > (IF Map THEN 14 ELSE 60) /\ Coarsen(i) /\ H([op |-> "coarsen", i |-> i])
         \/ Go /\ Map /\ \E i \in Idx, f \in 4..7 : objs[i].nx \in Sizes /\ objs[i].ny \in Sizes /\ Solve(i, f, f) /\ H([op |-> "solve", i |-> i, f |-> f])
         \/ Go /\ ~Map /\ \E i \in Idx, d \in 1..4, nx \in {0, 33}, ny \in {0, 33} : NewDomain(i, d, nx, ny) /\ H([op |-> "domain", i |-> i, dom |-> d, nx |-> nx, ny |-> ny])
         \/ Go /\ ~Map /\ \E i \in Idx, w \in {0, 1} : Step(i, 7) /\ H([op |-> "step", i |-> i, whose |-> w])
         \/ n = Depth /\ PrintT("@@" \o ToJson(hist)) /\ n' = n + 1 /\ UNCHANGED <<objs, hist>>
GSpec == GInit /\ [][GNext]_gv
=============================================================================
