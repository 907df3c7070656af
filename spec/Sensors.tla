------------------------------- MODULE Sensors -------------------------------
(* Diagnostics of a machine: each sensor shows the value its last measurement *)
(* taken while it was switched on had: a linear function of the coil currents *)
(* at that moment and, if an equilibrium was given, of its plasma.            *)
(*   cur   element currents        pos   position of the movable coil         *)
(*   amp, shp  plasma              on    sensors switched on                  *)
(*   meas  what the sensors show   tab   response tables                      *)
EXTENDS Integers, Sequences, TLC
VARIABLES cur, pos, amp, shp, on, meas, tab
svars == <<cur, pos, amp, shp, on, meas, tab>>
NEl == Len(cur)
NSens == Len(on)
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
\* what sensor i would show now
Coils(i) == SumTo([j \in 1..NEl |-> tab.G[pos][i][j] * cur[j]], NEl)
Plasma(i) == IF shp = 0 THEN 0 ELSE tab.P[shp][i] * amp
Value(i, w) == Coils(i) + (IF w THEN Plasma(i) ELSE 0)

SetCur(j, v) == cur' = [cur EXCEPT ![j] = v] /\ UNCHANGED <<pos, amp, shp, on, meas, tab>>
Move(p) == pos' = p /\ UNCHANGED <<cur, amp, shp, on, meas, tab>>
Solve(a, s) == amp' = a /\ shp' = s /\ UNCHANGED <<cur, pos, on, meas, tab>>
Switch(i, b) == on' = [on EXCEPT ![i] = b] /\ UNCHANGED <<cur, pos, amp, shp, meas, tab>>
\* S: sensors asked;  w: with the equilibrium
Taken(S, w) == [i \in 1..NSens |-> IF i \in S /\ on[i] THEN Value(i, w) ELSE meas[i]]
Take(S, w) == meas' = Taken(S, w) /\ UNCHANGED <<cur, pos, amp, shp, on, tab>>
(* ------------------------- small instance for TLC ------------------------ *)
\* sensor 1 encloses the plasma, 2 the movable coil when at position 1 and
\* half of the other coil, 3 everything
SmallTab == [G |-> << <<<<0, 0>>, <<4, 1>>, <<4, 2>>>>, <<<<0, 0>>, <<0, 1>>, <<4, 2>>>> >>, P |-> << <<2, 0, 2>>, <<1, 0, 1>> >>]
Init == /\ cur \in [1..2 -> {0, 1}] /\ pos = 1 /\ amp = 0 /\ shp = 0 /\ on \in [1..3 -> BOOLEAN]
        /\ meas = <<0, 0, 0>> /\ tab = SmallTab
Next == \/ \E j \in 1..2, v \in {0, 1, -1} : SetCur(j, v)
        \/ \E p \in 1..2 : Move(p)
        \/ \E a \in {1, -1}, s \in 1..2 : Solve(a, s)
        \/ \E i \in 1..3, b \in BOOLEAN : Switch(i, b)
        \/ \E S \in SUBSET (1..3), w \in BOOLEAN : Take(S, w)
Spec == Init /\ [][Next]_svars
(* ------------------------------ properties ------------------------------- *)
\* a sensor that is off keeps what it showed
OffKeeps == [][\A i \in 1..3 : (~on[i] /\ ~on'[i]) => meas'[i] = meas[i]]_svars
\* measuring disturbs nothing, and only measuring changes what sensors show
OnlyTake == [][(meas' # meas) => UNCHANGED <<cur, pos, amp, shp, on, tab>>]_svars
\* nested Rogowski coils: the outer one shows at least the sum of what it encloses
Enclosing == \A w \in BOOLEAN : Value(3, w) = Value(1, w) + (4 * cur[1]) + (2 * cur[2])
Superposition == \A i \in 1..3 : Value(i, TRUE) = Value(i, FALSE) + Plasma(i)
=============================================================================
