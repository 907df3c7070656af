----------------------------- MODULE EquilTrace -----------------------------
(* Recorded histories of a real equilibrium, judged against Equil.            *)
EXTENDS Equil, TraceKit
VARIABLE l
tv == <<conf, cur, ctl, amp, shp, l>>
E == Trace[l + 1]
\* o.rec: recovered superposition coefficients in thousandths (three coils, two shapes)
Rec(r, t) == /\ \A i \in 1..N : Near(r[i], 1000 * cur[i], t)
             /\ \A s \in {1, 2} : Near(r[N + s], IF s = shp THEN 1000 * amp ELSE 0, t)
Clauses(o) == {
  <<"C04:FluxOnGridIsCoilsPlusPlasma", Rec(o.psi, 8) /\ o.psires <= 3000>>,
  <<"C04:FluxAtPointsIsCoilsPlusPlasma", Rec(o.psirz, 8) /\ o.psirzres <= 3000>>,
  <<"C04:RadialField", Rec(o.br, 16) /\ o.brres <= 9000>>,
  <<"C04:VerticalField", Rec(o.bz, 16) /\ o.bzres <= 9000>>,
  <<"C04:GridAndPointsAgree", o.gridpt <= 1>>,
  <<"C04:FieldIsFluxGradient", o.gradr <= 60 /\ o.gradz <= 60>>,
  <<"C04:PoloidalFieldMagnitude", o.bpol <= 1>>,
  <<"C04:TotalFieldMagnitude", o.btot <= 1>>,
  <<"C04:ToroidalField", o.btor <= 1>>,
  <<"C04:NormalisedFlux", o.psin <= 1>>,
  <<"C04:ScalarsAgreeWithArrays", o.scal <= 1>>,
  <<"C04:PlasmaCurrent", Near(o.ip, 1000 * PlasmaCurrent, 4)>> }
Judge == (l \in 1..Len(Trace) /\ "obs" \in DOMAIN Trace[l]) => Report(l, Failing(Clauses(Trace[l].obs)))
Is(n) == l < Len(Trace) /\ E.ev = n /\ l' = l + 1
TStart == Is("start") /\ conf' = E.c /\ cur' = E.cur /\ ctl' = E.ctl /\ amp' = 0 /\ shp' = 1
TSet == Is("setcur") /\ SetCurrent(E.i, E.v)
TCtl == Is("setctl") /\ SetControl(E.i, E.v)
TAdjust == Is("adjust") /\ Adjust(E.d)
TSolve == Is("solve") /\ Solve(E.a, E.s)
TCrash == Is("crash") /\ Report(l + 1, {"NoUnexpectedException"}) /\ UNCHANGED evars
TEnd == l = Len(Trace) /\ l' = l + 1 /\ UNCHANGED evars
TInit == l = 0 /\ conf = Conf(1, 2, 1, 1) /\ cur = <<0, 0, 0>> /\ ctl = <<TRUE, TRUE, TRUE>> /\ amp = 0 /\ shp = 1
TNext == Judge /\ (TStart \/ TSet \/ TCtl \/ TAdjust \/ TSolve \/ TCrash \/ TEnd)
TraceSpec == TInit /\ [][TNext]_tv
Finished == PrintT(<<"DONE", TLCGet("stats").diameter - 2>>)
=============================================================================
