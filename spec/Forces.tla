------------------------------- MODULE Forces --------------------------------
(* Forces on the conductors of a machine: on each one the current it carries  *)
(* times the field of everything else (other conductors, also those of its    *)
(* own circuit, and the plasma), plus the outward hoop force of its own field.*)
(*   cur   currents of the elements (coils, circuits, solenoids)              *)
(*   pos   position of the movable coil       amp, shp  plasma                *)
(*   tab   elem[k], mult[k]  element of conductor k, its share of the current *)
(*         feels[k]          forces on conductor k are calculated             *)
(*         T[pos][x][k][j]   force (x: 1 outward, 2 up) on k per unit         *)
(*                           currents of k and j;  P[shp][x][k] plasma        *)
(*         H[pos][k][n + 1]  hoop force for n units of current                *)
EXTENDS Integers, Sequences
VARIABLES cur, pos, amp, shp, tab
fvars == <<cur, pos, amp, shp, tab>>
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)
FAbs(x) == IF x < 0 THEN -x ELSE x
NCon == Len(tab.elem)
I(k) == tab.mult[k] * cur[tab.elem[k]]
Mutual(x, k) == I(k) * SumTo(LAMBDA j : IF j = k THEN 0 ELSE tab.T[pos][x][k][j] * I(j), NCon)
Plasma(x, k) == IF shp = 0 THEN 0 ELSE I(k) * tab.P[pos][shp][x][k] * amp
Hoop(x, k) == IF x = 1 THEN tab.H[pos][k][FAbs(I(k)) + 1] ELSE 0
Force(x, k, w) == Mutual(x, k) + Hoop(x, k) + (IF w THEN Plasma(x, k) ELSE 0)
(* sum of the sizes of the terms, for tolerances *)
Size(x, k, w) == FAbs(I(k)) * SumTo(LAMBDA j : IF j = k THEN 0 ELSE FAbs(tab.T[pos][x][k][j] * I(j)), NCon)
                   + FAbs(Hoop(x, k)) + (IF w THEN FAbs(Plasma(x, k)) ELSE 0)

SetCur(j, v) == cur' = [cur EXCEPT ![j] = v] /\ UNCHANGED <<pos, amp, shp, tab>>
Move(p) == pos' = p /\ UNCHANGED <<cur, amp, shp, tab>>
Solve(a, s) == amp' = a /\ shp' = s /\ UNCHANGED <<cur, pos, tab>>
Reverse == cur' = [j \in 1..Len(cur) |-> -cur[j]] /\ amp' = -amp /\ UNCHANGED <<pos, shp, tab>>
Ask == UNCHANGED fvars
(* ------------------------- small instance for TLC ------------------------ *)
(* conductors 1 and 2 in circuit 1 (opposite directions), 3 alone; vertical   *)
(* interactions are antisymmetric                                             *)
Small == [elem |-> <<1, 1, 2>>, mult |-> <<1, -1, 2>>, feels |-> <<TRUE, TRUE, TRUE>>,
          T |-> << << <<<<0, 2, 1>>, <<2, 0, 3>>, <<1, 3, 0>>>>, <<<<0, 4, 5>>, <<-4, 0, -7>>, <<-5, 7, 0>>>> >>,
                   << <<<<0, 2, 1>>, <<2, 0, 1>>, <<1, 1, 0>>>>, <<<<0, 4, 2>>, <<-4, 0, -1>>, <<-2, 1, 0>>>> >> >>,
          P |-> << << <<<<2, 3, 1>>, <<1, -2, 5>>>> >>, << <<<<2, 3, 1>>, <<1, -2, 4>>>> >> >>,
          H |-> << [k \in 1..3 |-> <<0, 1, 5, 11, 19>>], [k \in 1..3 |-> <<0, 1, 5, 11, 19>>] >>]
Init == cur \in [1..2 -> {-2, 0, 1}] /\ pos = 1 /\ amp = 0 /\ shp = 0 /\ tab = Small
Next == \/ \E j \in 1..2, v \in {-2, -1, 0, 1, 2} : SetCur(j, v)
        \/ \E p \in 1..2 : Move(p)
        \/ \E a \in {-1, 1, 2} : Solve(a, 1)
        \/ Reverse
        \/ Ask
Spec == Init /\ [][Next]_fvars
(* ------------------------------ properties ------------------------------- *)
ActionIsReaction == SumTo(LAMBDA k : Force(2, k, FALSE), NCon) = 0
NoCurrentNoForce == \A k \in 1..NCon, x \in 1..2, w \in BOOLEAN : I(k) = 0 => Force(x, k, w) = 0
(* reversing every current (and the plasma) leaves the forces as they are *)
ReversalSymmetric == [][Reverse => \A k \in 1..NCon, x \in 1..2, w \in BOOLEAN : Force(x, k, w)' = Force(x, k, w)]_fvars
HoopOutward == \A k \in 1..NCon : Hoop(1, k) >= 0
=============================================================================
