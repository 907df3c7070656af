--------------------------------- MODULE Grid --------------------------------
(* Equilibria on meshes that are refined, coarsened and changed.  objs is the *)
(* sequence of all equilibria made so far; each has its mesh, its domain, the *)
(* settings it was made with, its current and which flux it holds: fl is the  *)
(* solution or map, fx by fy the mesh this was worked out on, and low the     *)
(* coarsest mesh it has passed through since (which bounds its accuracy).     *)
(* Every operation but Solve makes a new equilibrium and leaves all others    *)
(* as they were; Solve changes only its own.                                  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxN
VARIABLES objs
Obj(nx, ny, d, s, ip, f) == [nx |-> nx, ny |-> ny, dom |-> d, set |-> s, ip |-> ip, fl |-> f, fx |-> nx, fy |-> ny, low |-> IF nx < ny THEN nx ELSE ny]
Min(a, b) == IF a < b THEN a ELSE b
Mesh(o, nx, ny) == [o EXCEPT !.nx = nx, !.ny = ny, !.low = Min(o.low, Min(nx, ny))]
Twice(n) == 2 * (n - 1) + 1
Half(n) == (n - 1) \div 2 + 1
Refined(o) == Mesh(o, Twice(o.nx), Twice(o.ny))
RefinedTo(o, nx, ny) == Mesh(o, IF nx = 0 THEN Twice(o.nx) ELSE nx, IF ny = 0 THEN Twice(o.ny) ELSE ny)
Coarsened(o) == IF o.nx % 2 = 1 /\ o.ny % 2 = 1 THEN Mesh(o, Half(o.nx), Half(o.ny)) ELSE o
Solved(o, f, ip) == [o EXCEPT !.fl = f, !.ip = ip, !.fx = o.nx, !.fy = o.ny, !.low = Min(o.nx, o.ny)]
(* solving in another domain: the same plasma, worked out anew on the new mesh *)
Moved(o, d, nx, ny) == [o EXCEPT !.dom = d, !.nx = IF nx = 0 THEN o.nx ELSE nx, !.ny = IF ny = 0 THEN o.ny ELSE ny,
                                 !.low = Min(o.low, Min(IF nx = 0 THEN o.nx ELSE nx, IF ny = 0 THEN o.ny ELSE ny))]
Add(o) == objs' = Append(objs, o)
Refine(i) == Add(Refined(objs[i]))
RefineTo(i, nx, ny) == Add(RefinedTo(objs[i], nx, ny))
Coarsen(i) == Add(Coarsened(objs[i]))
NewDomain(i, d, nx, ny) == Add(Moved(objs[i], d, nx, ny))
Solve(i, f, ip) == objs' = [objs EXCEPT ![i] = Solved(@, f, ip)]
(* one more iteration with the profiles it already solves: the same plasma *)
Step(i, ip) == objs' = [objs EXCEPT ![i].ip = ip]
(* ------------------------- small instance for TLC ------------------------ *)
Init == \E nx \in {3, 5, 6}, ny \in {3, 5}, s \in {1, 2} : objs = <<Obj(nx, ny, 1, s, 7, 1)>>
Idx == 1..Len(objs)
More == Len(objs) < MaxN
Next == \/ More /\ \E i \in Idx : objs[i].nx < 12 /\ objs[i].ny < 12 /\ Refine(i)
        \/ More /\ \E i \in Idx : objs[i].nx < 12 /\ RefineTo(i, 7, 0)
        \/ More /\ \E i \in Idx : objs[i].nx > 2 /\ objs[i].ny > 2 /\ Coarsen(i)
        \/ More /\ \E i \in Idx : NewDomain(i, 2, 0, 5)
        \/ \E i \in Idx, f \in {2, 3} : Solve(i, f, f)
        \/ \E i \in Idx : Step(i, 7)
Spec == Init /\ [][Next]_objs
CoarsenUndoesRefine == \A i \in Idx : Coarsened(Refined(objs[i])) = objs[i]
SettingsKept == \A i \in Idx : objs[i].set = objs[1].set
NeverBetterThanItsSource == \A i \in Idx : objs[i].low <= Min(objs[i].fx, objs[i].fy) /\ objs[i].low <= Min(objs[i].nx, objs[i].ny)
OneAtATime == [][\/ Len(objs') = Len(objs) + 1 /\ \A i \in Idx : objs'[i] = objs[i]
                 \/ Len(objs') = Len(objs) /\ \E i \in Idx : \A j \in Idx \ {i} : objs'[j] = objs[j]]_objs
=============================================================================
