---------------------------- MODULE BoundaryTrace ----------------------------
EXTENDS Boundary, TraceKit
VARIABLE l
tv == <<wall, fixed, check, flux, res, l>>
E == Trace[l + 1]
\* o.tol: what the finite number of wall points can resolve for this map
Clauses(o) == {
  <<"C15:AxisFlux", Near(o.ax, flux.ax, 20)>>,
  <<"C15:BoundaryFlux", IF res.b = NONE THEN o.b = NONE
                        ELSE o.b # NONE /\ Near(o.b, res.b, IF res.lim THEN o.tol ELSE 20)>>,
  <<"C15:LimitedFlag", o.lim = res.lim>>,
  <<"C15:ContactPointOnWallWithBoundaryFlux", res.lim => o.contact>>,
  <<"C15:CoreMask", o.mask>> }
Judge == (l \in 1..Len(Trace) /\ "obs" \in DOMAIN Trace[l]) => Report(l, Failing(Clauses(Trace[l].obs)))
Is(n) == l < Len(Trace) /\ E.ev = n /\ l' = l + 1
TStart == /\ Is("start") /\ wall' = E.wall /\ fixed' = E.fixed /\ check' = E.check /\ flux' = E.flux
          /\ res' = Select(E.check, E.wall, E.fixed, E.flux)
TCheck == Is("check") /\ SetCheck(E.b)
TWall == Is("wall") /\ SetWall(E.b)
TSolve == Is("solve") /\ Solve(E.flux)
TCrash == Is("crash") /\ Report(l + 1, {"NoUnexpectedException"}) /\ UNCHANGED bvars
TEnd == l = Len(Trace) /\ l' = l + 1 /\ UNCHANGED bvars
TInit == l = 0 /\ wall = FALSE /\ fixed = FALSE /\ check = FALSE /\ flux = Fl(0, FALSE, 0, 0, 0) /\ res = [b |-> NONE, lim |-> FALSE]
TNext == Judge /\ (TStart \/ TCheck \/ TWall \/ TSolve \/ TCrash \/ TEnd)
TraceSpec == TInit /\ [][TNext]_tv
Finished == PrintT(<<"DONE", TLCGet("stats").diameter - 2>>)
=============================================================================
