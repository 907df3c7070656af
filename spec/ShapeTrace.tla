----------------------------- MODULE ShapeTrace ------------------------------
(* Recorded questions about an equilibrium.  Lengths in 0.1 mm, ratios in     *)
(* 1/10000, errors against the closed form in parts per million.              *)
EXTENDS Shape, TraceKit
VARIABLE l
tv == <<shvars, l>>
E == Trace[l + 1]
Is(x) == l < Len(Trace) /\ E.ev = x /\ l' = l + 1
\* reported = 10000 * num / den within t
Ratio(rep, num, den, t) == Abs(rep * den - 10000 * num) <= t * den
AnyRatio(rep, nums, den, t) == \E x \in nums : Ratio(rep, x, den, t)
W == 2
ShapeClauses(e) ==
  LET p == e.pts  a == A2(e.pts) IN
  { <<"C14:MajorRadius", Near(2 * e.R0, Rgeo2(p), 4)>>,
    <<"C14:GeometricAxis", Near(e.axR, e.R0, 1) /\ Near(e.axZ, e.Z0, 1) /\ \E z \in Zgeo2s(p, W) : Near(2 * e.Z0, z, 4)>>,
    <<"C14:MinorRadius", Near(2 * e.a, a, 4)>>,
    <<"C14:AspectRatio", a > 0 => Ratio(e.A, Rgeo2(p), a, 20) /\ Abs(e.A * e.iA - 100000000) <= 50000>>,
    <<"C14:Elongation", a > 0 => Ratio(e.k, Kappa(p), a, 10) /\ AnyRatio(e.ku, KappaU(p, W), a, 10) /\ AnyRatio(e.kl, KappaL(p, W), a, 10)
                                 /\ Near(e.ku + e.kl, 2 * e.k, 3)>>,
    <<"C14:Triangularity", a > 0 => AnyRatio(e.du, DeltaU(p, W), a, 10) /\ AnyRatio(e.dl, DeltaL(p, W), a, 10) /\ Near(e.du + e.dl, 2 * e.d, 3)>>,
    <<"C14:ShafranovShift", Near(e.sR, e.magR - e.R0, 3) /\ Near(e.sZ, e.magZ - e.Z0, 3)>>,
    <<"C14:MagneticAxis", Near(e.magR, e.trueR, 5) /\ Near(e.magZ, e.trueZ, 5)>>,
    <<"C14:AskingChangesNothing", e.same>> }
SepClauses(e) ==
  { <<"C14:SeparatrixHasRequestedPoints", e.n = e.len>>,
    <<"C14:SeparatrixOnBoundaryFlux", e.psierr <= 3000>>,
    <<"C14:SeparatrixGoesRoundAxis", e.angerr <= 3000>>,
    <<"C14:AskingChangesNothing", e.same>> }
QClauses(e) ==
  { <<"C14:SafetyFactor", e.err <= 15000>>,
    <<"C14:SafetyFactorShape", e.kind>>,
    <<"C14:AskingChangesNothing", e.same>> }
RhoClauses(e) ==
  { <<"C14:ToroidalFlux", e.err <= 15000>>,
    <<"C14:NormalisedToroidalFlux", e.rerr <= 15000>>,
    <<"C14:AskingChangesNothing", e.same>> }
IOClauses(e) == { <<"C14:InnerOuterSeparatrix", e.err <= 3000>>, <<"C14:AskingChangesNothing", e.same>> }
WallClauses(e) == { <<"C14:IntersectsWall", e.got = e.want>>, <<"C14:AskingChangesNothing", e.same>> }
IntClauses(e) ==
  { <<"C22:Volume", e.vol <= e.tol>>,
    <<"C22:PoloidalBeta", e.bp <= e.tol2>>, <<"C22:PoloidalBeta2", e.bp2 <= 3000>>, <<"C22:PoloidalBeta3", e.bp3 <= 3000>>,
    <<"C22:ToroidalBeta", e.bt <= e.tol2>>, <<"C22:NormalisedBeta", e.bn <= e.tol2>>,
    <<"C22:InternalInductance", e.li <= e.tol>>, <<"C22:InternalInductance1", e.li1 <= e.tol2>>,
    <<"C22:InternalInductance2", e.li2 <= e.tol>>, <<"C22:InternalInductance3", e.li3 <= e.tol>>,
    <<"C22:AveragePressure", e.pav <= e.tol2>>, <<"C22:ThermalEnergy", e.wth <= 3000>>,
    <<"C22:CylindricalQ", e.qcyl <= 2000>>,
    \* identities between the reported values (1/10000 of each value's scale)
    <<"C22:TotalBeta", e.tot <= 10>>, <<"C22:EffectiveElongation", e.keff <= 10>>,
    <<"C22:EnergyIsThreeHalvesPressure", e.wp <= 10>>, <<"C22:InductancesAgree", e.lili <= 10>>,
    <<"C22:AskingChangesNothing", e.same>> }
TMake == Is("make") /\ Set(<<>>)
TSolve == Is("solve") /\ Set(<<>>)
TShape == Is("shape") /\ Report(l + 1, Failing(ShapeClauses(E))) /\ Ask("shape")
TSep == Is("sep") /\ Report(l + 1, Failing(SepClauses(E))) /\ Ask("sep")
TQ == Is("q") /\ Report(l + 1, Failing(QClauses(E))) /\ Ask("q")
TRho == Is("rho") /\ Report(l + 1, Failing(RhoClauses(E))) /\ Ask("rho")
TIO == Is("inout") /\ Report(l + 1, Failing(IOClauses(E))) /\ Ask("inout")
TWall == Is("wall") /\ Report(l + 1, Failing(WallClauses(E))) /\ Ask("wall")
TInt == Is("integ") /\ Report(l + 1, Failing(IntClauses(E))) /\ Ask("integ")
TCrash == Is("crash") /\ Report(l + 1, {"NoUnexpectedException"}) /\ UNCHANGED shvars
TInit == l = 0 /\ pts = <<>> /\ asked = "nothing"
TNext == TMake \/ TSolve \/ TShape \/ TSep \/ TQ \/ TRho \/ TIO \/ TWall \/ TInt \/ TCrash
TraceSpec == TInit /\ [][TNext]_tv
=============================================================================
