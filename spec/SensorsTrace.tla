---------------------------- MODULE SensorsTrace -----------------------------
(* Recorded measurements.  Values in millionths of each sensor's scale; tol:  *)
(* discretisation error allowed per unit of plasma amplitude.                 *)
EXTENDS Sensors, TraceKit
VARIABLE l
tv == <<svars, l>>
E == Trace[l + 1]
Is(x) == l < Len(Trace) /\ E.ev = x /\ l' = l + 1
None == -2000000000
Asked(e) == IF e.i = 0 THEN 1..NSens ELSE {e.i}
Allowed(i, w) == 60 + (IF w THEN tab.tol[i] * Abs(amp) ELSE 0)
Fits(i, e) == IF i \in Asked(e) /\ on[i]
              THEN Near(e.v[i], Value(i, e.w), Allowed(i, e.w))
              ELSE e.v[i] = meas[i]
Clauses(e) ==
  { <<"C05:RogowskiShowsEnclosedCurrent", \A i \in 1..NSens : (tab.kind[i] = "rog" /\ i \in Asked(e) /\ on[i]) => Fits(i, e)>>,
    <<"C05:ProbeShowsFieldAlongItsAngle", \A i \in 1..NSens : (tab.kind[i] = "probe" /\ i \in Asked(e) /\ on[i]) => Fits(i, e)>>,
    <<"C05:FluxLoopShowsFlux", \A i \in 1..NSens : (tab.kind[i] = "loop" /\ i \in Asked(e) /\ on[i]) => Fits(i, e)>>,
    <<"C05:OthersKeepTheirValue", \A i \in 1..NSens : (i \notin Asked(e) \/ ~on[i]) => Fits(i, e)>>,
    <<"C05:MeasuringDisturbsNothing", e.same>>,
    <<"C05:CoilsUntouched", e.cur = cur>>,
    <<"C05:PrintsEverySensor", e.printed>> }
TMake == Is("make") /\ cur' = E.cur /\ pos' = 1 /\ amp' = 0 /\ shp' = 0 /\ on' = E.on /\ meas' = E.v /\ tab' = E.tab
TCur == Is("cur") /\ SetCur(E.j, E.v)
TMove == Is("move") /\ Move(E.p)
TSolve == Is("solve") /\ Solve(E.a, E.s)
TSwitch == Is("switch") /\ (IF E.v = meas THEN TRUE ELSE Report(l + 1, {"C05:SwitchingKeepsTheValue"})) /\ Switch(E.i, E.b)
\* the walk goes on from what the sensors really showed
TTake == Is("take") /\ Report(l + 1, Failing(Clauses(E))) /\ meas' = E.v /\ UNCHANGED <<cur, pos, amp, shp, on, tab>>
TCrash == Is("crash") /\ Report(l + 1, {"NoUnexpectedException"}) /\ UNCHANGED svars
TInit == l = 0 /\ cur = <<>> /\ pos = 1 /\ amp = 0 /\ shp = 0 /\ on = <<>> /\ meas = <<>> /\ tab = <<>>
TNext == TMake \/ TCur \/ TMove \/ TSolve \/ TSwitch \/ TTake \/ TCrash
TraceSpec == TInit /\ [][TNext]_tv
=============================================================================
