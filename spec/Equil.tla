-------------------------------- MODULE Equil --------------------------------
(* An equilibrium: coils around a plasma.  The flux is the superposition of   *)
(* the coils' fluxes for the currents they carry NOW and of the plasma's own  *)
(* flux, which only a solve changes.                                          *)
(*   cur[i]  current of element i, in units of 100 kA                         *)
(*   ctl[i]  whether the control system may change element i                  *)
(*   amp     amplitude of the plasma current, shp its shape (0: none yet)     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS CurVals, AmpVals, Shapes, Configs

VARIABLES conf, cur, ctl, amp, shp
evars == <<conf, cur, ctl, amp, shp>>
N == 3
\* configuration: which mesh, which discretisation, which boundary method
\* (and the size of all currents: 1, a ten thousandth, a hundred times)
Conf(m, o, b, s) == [mesh |-> m, order |-> o, bnd |-> b, scale |-> s]

Start(c, c0, k0) == conf = c /\ cur = c0 /\ ctl = k0 /\ amp = 0 /\ shp = 1
SetCurrent(i, v) == cur' = [cur EXCEPT ![i] = v] /\ UNCHANGED <<conf, ctl, amp, shp>>
SetControl(i, b) == ctl' = [ctl EXCEPT ![i] = b] /\ UNCHANGED <<conf, cur, amp, shp>>
\* the control system changes the currents of the elements it controls
Adjust(d) == cur' = [i \in 1..N |-> IF ctl[i] THEN cur[i] + d[i] ELSE cur[i]] /\ UNCHANGED <<conf, ctl, amp, shp>>
\* a linear solve replaces the plasma; the coils do not change
Solve(a, s) == amp' = a /\ shp' = s /\ UNCHANGED <<conf, cur, ctl>>

\* total flux as a formal superposition: coefficients of the basis fluxes
Flux == [i \in 1..N |-> cur[i]] @@ [s \in {10 * x : x \in Shapes} |-> IF s = 10 * shp THEN amp ELSE 0]
PlasmaCurrent == amp

Init == \E c \in Configs, c0 \in [1..N -> CurVals], k0 \in [1..N -> BOOLEAN] : Start(c, c0, k0)
Next == \/ \E i \in 1..N, v \in CurVals : SetCurrent(i, v)
        \/ \E i \in 1..N, b \in BOOLEAN : SetControl(i, b)
        \/ \E d \in [1..N -> {0, 1}] : Adjust(d)
        \/ \E a \in AmpVals, s \in Shapes : Solve(a, s)
Spec == Init /\ [][Next]_evars

(* ------------------------------ properties ------------------------------- *)
\* only a solve changes the plasma; only current changes change the coils
PlasmaOnlyBySolve == [][(cur' # cur) => (amp' = amp /\ shp' = shp)]_evars
CoilsOnlyByCurrents == [][(amp' # amp \/ shp' # shp) => cur' = cur]_evars
\* what is not controlled keeps its current unless it is set itself
UncontrolledKept == [][\A i \in 1..N : ~ctl[i] /\ ctl' = ctl /\ Cardinality({j \in 1..N : cur'[j] # cur[j]}) > 1 => cur'[i] = cur[i]]_evars
\* the plasma current is that of the last solve, whatever the coils do
CurrentIsLastSolve == PlasmaCurrent = amp
\* at most one plasma shape at a time
OnePlasma == Cardinality({s \in Shapes : Flux[10 * s] # 0}) <= 1
SmallCur == {-1, 0, 2}
SmallAmp == {-2, 0, 1}
BigCur == {-2, -1, 0, 1, 3}
BigAmp == {-4, 0, 1, 3}
SmallConfigs == {Conf(1, 2, 1, 1)}
BigConfigs == {Conf(m, o, b, s) : m \in 1..4, o \in {2, 4}, b \in {1}, s \in 1..3}
Bound == \A i \in 1..N : cur[i] \in -3..3
=============================================================================
