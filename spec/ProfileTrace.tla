---------------------------- MODULE ProfileTrace -----------------------------
EXTENDS Profile, TraceKit
VARIABLE l
tv == <<kind, m, n, ip, pax, map, fit, l>>
E == Trace[l + 1]
FT == 12
\* o.x: the normalised fluxes at which the profile functions were evaluated
Clauses(o) ==
  { <<"C10:PlasmaCurrentAsRequested", kind # "table" => Near(o.ip, 1000 * fit.ip, 2)>>,
    <<"C10:CurrentIsIntegralOfDensity", Near(o.ipown, o.ip, o.iptol)>>,
    <<"C10:AxisPressureAsRequested", kind = "paxis" => Near(o.pax, 100 * fit.pax, 2)>>,
    <<"C10:PoloidalBetaAsRequested", kind = "betap" => Near(o.betap, 10 * fit.pax, o.btol)>>,
    <<"C10:DensityFollowsProfiles", o.jres <= o.jtol>>,
    <<"C10:NoCurrentOutsideCore", o.jout = 0>>,
    <<"C10:PprimeShape", \A i \in 1..Len(o.x) : Near(o.pp[i], Shape(m, n, o.x[i]), FT)>>,
    <<"C10:FfprimeShape", \A i \in 1..Len(o.x) : Near(o.ff[i], Shape(m, n, o.x[i]), FT)>>,
    <<"C10:PressureIsIntegral", \A i \in 1..Len(o.x) : Near(o.p[i], Integral(m, n, o.x[i]), FT + o.ptol)>>,
    <<"C10:FIsIntegral", \A i \in 1..Len(o.x) : Near(o.f[i], Integral(m, n, o.x[i]), FT + o.ftol)>>,
    <<"C10:PressureZeroAtEdge", o.pedge = 0>>,
    <<"C10:VacuumFAtEdge", o.fedge = 0>>,
    <<"C10:ScalarsArraysAgree", o.forms>>,
    <<"C10:InputsNotModified", o.same>> }
Judge == (l \in 1..Len(Trace) /\ "obs" \in DOMAIN Trace[l]) => Report(l, Failing(Clauses(Trace[l].obs)))
Is(x) == l < Len(Trace) /\ E.ev = x /\ l' = l + 1
TMake == /\ Is("make") /\ kind' = E.kind /\ m' = E.m /\ n' = E.n /\ ip' = E.ip /\ pax' = E.pax /\ map' = 0 /\ fit' = NoFit
         /\ (E.raised # ~Valid(E.m, E.n)) => Report(l + 1, {"C10:NegativeExponentsRejected"})
TEval == Is("eval") /\ Evaluate(E.map)
TIp == Is("ip") /\ SetIp(E.v)
TPax == Is("pax") /\ SetPax(E.v)
TOver == Is("override") /\ (IF E.used THEN TRUE ELSE Report(l + 1, {"C10:GivenBoundaryUsed"})) /\ UNCHANGED pvars
TCrash == Is("crash") /\ Report(l + 1, {"NoUnexpectedException"}) /\ UNCHANGED pvars
TEnd == l = Len(Trace) /\ l' = l + 1 /\ UNCHANGED pvars
TInit == l = 0 /\ kind = "paxis" /\ m = 1 /\ n = 1 /\ ip = 0 /\ pax = 0 /\ map = 0 /\ fit = NoFit
TNext == Judge /\ (TMake \/ TEval \/ TIp \/ TPax \/ TOver \/ TCrash \/ TEnd)
TraceSpec == TInit /\ [][TNext]_tv
Finished == PrintT(<<"DONE", TLCGet("stats").diameter - 2>>)
=============================================================================
