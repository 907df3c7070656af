----------------------------- MODULE GFileTrace ------------------------------
(* Recorded writes, and what an independent parser and the reader made of the *)
(* files.  errs[v]: errors in parts per million against equilibrium v (its    *)
(* own closed form or its state at the time), walls[w]: wall w is recognised  *)
EXTENDS GFile, TraceKit
VARIABLE l
tv == <<gfvars, l>>
E == Trace[l + 1]
Is(x) == l < Len(Trace) /\ E.ev = x /\ l' = l + 1
WallIs(e, w) == w \in 0..(Len(e.walls) - 1) /\ e.walls[w + 1]
GClauses(e, c) ==
  LET x == e.errs[c.sol] IN
  { <<"C07:MeshAndDomain", x.mesh <= 1>>,
    <<"C07:FluxOfTimeOfWriting", x.psi <= 5>>,
    <<"C07:AxisAndBoundaryFlux", x.axis <= 3000 /\ x.sib <= 300>>,
    <<"C07:FluxNormalisedToAxis", x.zero <= 300>>,
    <<"C07:PlasmaCurrentInFile", x.ip <= 5>>,
    <<"C07:VacuumField", x.fvac <= 5>>,
    <<"C07:ProfilesOnStandardGrid", x.pres <= 5 /\ x.fpol <= 5 /\ x.pp <= 5 /\ x.ff <= 5>>,
    <<"C07:SafetyFactorInFile", x.q <= 15000>>,
    <<"C07:BoundaryInFile", x.bdry <= 4000 /\ x.closed>>,
    <<"C07:WallInFile", WallIs(e, c.wall)>>,
    <<"C07:WellFormed", e.ok>> }
DClauses(e, c) ==
  LET x == e.errs[c.sol] IN
  { <<"C07:DivGeoMesh", x.mesh <= 1>>, <<"C07:DivGeoFlux", x.psi <= 5 /\ x.sib <= 300>>, <<"C07:DivGeoVacuumField", x.fvac <= 5>>,
    <<"C07:WellFormed", e.ok>> }
ReadClauses(e, c, w) ==
  IF ~e.ok THEN {<<"C07:WhatIsWrittenCanBeRead", FALSE>>} ELSE
  LET x == e.errs[c.sol] IN
  { <<"C07:MeshAndDomainComeBack", x.mesh>>,
    <<"C07:CoreFluxComesBack", x.psin <= 1500 /\ x.abs <= 1500>>,
    <<"C07:PlasmaCurrentComesBack", x.ip <= 1500>>,
    <<"C07:SafetyFactorComesBack", x.q <= 4000>>,
    <<"C07:CoilCurrentsComeBack", x.coils <= 8000>>,
    <<"C07:ProfilesComeBack", x.pres <= 100 /\ x.fpol <= 100>>,
    <<"C07:LimiterStatusComesBack", x.lim>>,
    <<"C07:WallComesBack", WallIs(e, WallAfter(e.f, w))>>,
    <<"C07:ReadingLeavesFileAlone", e.file>> }
TMake == Is("make") /\ sol' = E.v /\ wall' = E.w /\ got' = Empty /\ disk' = IF E.first THEN [f \in Files |-> Empty] ELSE disk
TSolve == Is("solve") /\ Solve(E.v, wall)
TWall == Is("wall") /\ Solve(E.v, E.w)
TWrite == Is("write") /\ Report(l + 1, Failing({<<"C07:WritingLeavesEquilibriumAlone", E.same>>, <<"C07:LabelInFile", E.lab>>})) /\ Write(E.f, E.fmt)
TParse == Is("parse") /\ (IF disk[E.f].fmt = "g" THEN Report(l + 1, Failing(GClauses(E, disk[E.f])))
                          ELSE IF disk[E.f].fmt = "d" THEN Report(l + 1, Failing(DClauses(E, disk[E.f]))) ELSE TRUE) /\ Parse(E.f)
TRead == Is("read") /\ (LET w == IF E.m = "live" THEN wall ELSE E.w IN Report(l + 1, Failing(ReadClauses(E, disk[E.f], w))))
                    /\ (IF E.m = "live" THEN ReadBack(E.f) ELSE Read(E.f, E.w))
TCrash == Is("crash") /\ Report(l + 1, {"NoUnexpectedException"}) /\ UNCHANGED gfvars
TInit == l = 0 /\ sol = 0 /\ wall = 0 /\ disk = [f \in Files |-> Empty] /\ got = Empty
TNext == TMake \/ TSolve \/ TWall \/ TWrite \/ TParse \/ TRead \/ TCrash
TraceSpec == TInit /\ [][TNext]_tv
=============================================================================
