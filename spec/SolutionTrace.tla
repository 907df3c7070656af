---------------------------- MODULE SolutionTrace ----------------------------
(* Recorded calls of freegs.solve.  a: the normalised answer (axis in 0.1 mm, *)
(* fluxes per ampere, conductor currents per ampere, in ppm of their scale).  *)
EXTENDS Solution, TraceKit
VARIABLE l
tv == <<solv, l>>
E == Trace[l + 1]
Is(x) == l < Len(Trace) /\ E.ev = x /\ l' = l + 1
\* X-points and equal fluxes can be met exactly with these coils
Exact(x) == x \in {2, 4}
Tol(i) == IF i <= 2 THEN 40 ELSE IF i <= 4 THEN 4000 ELSE 12000
Agree(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], Tol(i))
Clauses(e) ==
  { <<"C23:Converges", (e.fresh /\ (e.ipu > 0 \/ e.bl = 0)) => e.done>>,
    <<"C23:ReportsItsConvergence", e.done => e.rep>>,
    <<"C23:EquationHolds", e.done => e.res <= 1500>>,
    <<"C23:FluxIsThatOfItsCurrent", e.done => e.grn <= 25000>>,
    <<"C23:PlasmaCurrentAsAsked", e.done => (e.ip <= 300 \/ (e.frozen /\ e.ip <= 5000))>>,
    <<"C23:ProfileConstraintMet", e.done => e.par <= (IF e.prof = "beta" THEN 15000 ELSE IF e.frozen THEN 5000 ELSE 300)>>,
    <<"C23:XPointsWhereAsked", (e.done /\ Exact(e.x)) => e.xpt <= 5000>>,
    <<"C23:FluxesEqualWhereAsked", (e.done /\ Exact(e.x)) => e.iso <= 6000>>,
    <<"C23:BoundaryThroughTheXPoint", (e.done /\ e.x = 2) => e.bnd <= 8000>>,
    <<"C23:SettledAlready", (e.done /\ e.again /\ ~ e.frozen) => e.its <= 8>> }
Req(e) == [x |-> e.x, prof |-> e.prof, ip |-> e.ipu, par |-> e.paru]
TMake == Is("make") /\ Make([mesh |-> E.mesh, bnd |-> E.bnd])
TKick == Is("kick") /\ Kick
TSolve == /\ Is("solve")
          /\ LET r == Req(E) IN
             /\ Report(l + 1, Failing(Clauses(E) \cup
                  { <<"C23:SameAnswerWhateverCameBefore", (E.done /\ Known(Key(conf, r))) => Agree(E.a, book[Key(conf, r)])>> }))
             /\ IF E.done THEN Solve(r, E.a) ELSE Kick
TCrash == Is("crash") /\ Report(l + 1, {"NoUnexpectedException"}) /\ UNCHANGED solv
TInit == l = 0 /\ conf = [mesh |-> 0, bnd |-> 0] /\ state = None /\ book = <<>>
TNext == TMake \/ TKick \/ TSolve \/ TCrash
TraceSpec == TInit /\ [][TNext]_tv
=============================================================================
