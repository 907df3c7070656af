----------------------------- MODULE ForcesTrace -----------------------------
(* Recorded forces.  f[k]: force on conductor k in units of scale k.          *)
EXTENDS Forces, TraceKit
VARIABLE l
E == Trace[l + 1]
Is(x) == l < Len(Trace) /\ E.ev = x /\ l' = l + 1
Feel == {k \in 1..NCon : tab.feels[k]}
Tol(x, k, w) == 800 + Size(x, k, w) \div 8000 + (IF w THEN FAbs(I(k) * amp) * tab.ptol[k] ELSE 0)
Right(e, x) == \A k \in Feel : Near(e.f[k][x], Force(x, k, e.w), Tol(x, k, e.w))
Clauses(e) ==
  { <<"C18:EveryConductorHasAForce", e.labels>>,
    <<"C18:RadialForce", e.labels => Right(e, 1)>>,
    <<"C18:VerticalForce", e.labels => Right(e, 2)>>,
    <<"C18:NoCurrentNoForce", e.labels => \A k \in Feel : I(k) = 0 => (e.f[k][1] = 0 /\ e.f[k][2] = 0)>>,
    <<"C18:ActionIsReaction", (e.newton /\ ~ e.w) => Near(e.sum, 0, 20)>>,
    <<"C18:AskingChangesNothing", e.same /\ e.cur = cur>> }
(* kilonewtons: the largest force, from the specification's own forces *)
TMake == Is("make") /\ cur' = E.cur /\ pos' = 1 /\ amp' = 0 /\ shp' = 0 /\ tab' = E.tab
TCur == Is("cur") /\ SetCur(E.j, E.v)
TMove == Is("move") /\ Move(E.p)
TSolve == Is("solve") /\ Solve(E.a, E.s)
TAsk == Is("ask") /\ Report(l + 1, Failing(Clauses(E))) /\ UNCHANGED fvars
(* the measures used by the optimiser, against the forces and currents asked for *)
Meas(e) == { <<"C18:LargestForceIsTheMaximum", Near(e.fmax, e.fbig, 2)>>,
             <<"C18:LargestCurrentIsTheMaximum", e.cmax = (CHOOSE m \in {FAbs(cur[j]) : j \in 1..Len(cur)} : \A j \in 1..Len(cur) : FAbs(cur[j]) <= m)>>,
             <<"C18:PrintedForces", e.printed>>,
             <<"C18:AskingChangesNothing", e.same /\ e.cur = cur>> }
TMeas == Is("meas") /\ Report(l + 1, Failing(Meas(E))) /\ UNCHANGED fvars
TPlain == Is("plain") /\ Report(l + 1, Failing({<<"C18:" \o E.what, Near(E.got, E.want, E.tol)>>})) /\ UNCHANGED fvars
TCrash == Is("crash") /\ Report(l + 1, {"NoUnexpectedException"}) /\ UNCHANGED fvars
TInit == l = 0 /\ cur = <<>> /\ pos = 1 /\ amp = 0 /\ shp = 0 /\ tab = <<>>
TNext == TMake \/ TCur \/ TMove \/ TSolve \/ TAsk \/ TMeas \/ TPlain \/ TCrash
TraceSpec == TInit /\ [][TNext]_<<fvars, l>>
=============================================================================
