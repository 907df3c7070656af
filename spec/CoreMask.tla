------------------------------ MODULE CoreMask ------------------------------
(* The core of the plasma on a mesh: the points inside the boundary flux      *)
(* which are connected to the magnetic axis without passing the X-points.     *)
(*   In    set of mesh points with normalised flux below one                  *)
(*   xs    mesh points nearest to X-points; their neighbourhoods are closed   *)
(*         to the fill, and decided by the flux alone                         *)
EXTENDS CoreMaskOps, TLC
CONSTANTS NX, NY

VARIABLES In, start, xs, mask, stack, pc
mvars == <<In, start, xs, mask, stack, pc>>
Cells == (1..NX) \X (1..NY)
Block(X) == BlockOf(X, Cells)
Nbr(c) == NbrOf(c) \cap Cells
Core(inside, s, X) == CoreOf(inside, s, X, Cells)

\* operationally: a flood fill which takes waiting points in any order
Init == /\ In \in SUBSET Cells /\ start \in Cells
        /\ xs \in {{}} \cup {{c} : c \in Cells}
        /\ start \in In
        /\ mask = {} /\ stack = {start} /\ pc = "fill"
Fill == /\ pc = "fill" /\ stack # {}
        /\ \E c \in stack :
             /\ mask' = mask \cup {c}
             /\ stack' = (stack \ {c}) \cup {d \in Nbr(c) : d \in In /\ d \notin Block(xs) /\ d \notin mask'}
        /\ UNCHANGED <<In, start, xs, pc>>
Finish == /\ pc = "fill" /\ stack = {}
          /\ mask' = (mask \ Block(xs)) \cup (Block(xs) \cap In)
          /\ pc' = "done" /\ UNCHANGED <<In, start, xs, stack>>
Next == Fill \/ Finish
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
\* confluence: every order of filling gives the specified core
FillIsCore == pc = "done" => mask = Core(In, start, xs)
CoreInside == pc = "done" => mask \subseteq In
Terminates == <>(pc = "done")
=============================================================================
