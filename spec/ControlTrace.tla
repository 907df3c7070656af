---------------------------- MODULE ControlTrace -----------------------------
(* Recorded runs of the control system.  Currents in Ampere.                  *)
EXTENDS Control, TraceKit
VARIABLE l
tv == <<cur, ctl, pl, l>>
E == Trace[l + 1]
Unc(e) == \A i \in 1..Len(cur) : ~ctl[i] => e.cur[i] = cur[i]
Lim(e) == \A i \in 1..Len(cur) : (ctl[i] /\ e.lims) => e.cur[i] >= e.lo[i] - 1 /\ e.cur[i] <= e.hi[i] + 1
Tot(e) == e.tot >= 0 => SumAbs(e.cur, ctl) <= e.tot + 20
\* free: neither limits nor total bind at the unconstrained solution
RunClauses(e) ==
  { <<"C11:UncontrolledUntouched", Unc(e)>>,
    <<"C11:LimitsRespected", Lim(e)>>,
    <<"C11:TotalCurrentRespected", Tot(e)>>,
    <<"C11:ConstraintsMet", (e.free /\ e.solvable) => e.res <= 300>>,
    <<"C11:LeastSquaresSolution", e.free => e.dx <= 1500>>,
    <<"C11:NoWorseThanClipping", e.clip <= 1010000>>,
    <<"C11:BestWithinLimits", e.best => e.gap <= 1010000>>,
    <<"C11:PlasmaUntouched", e.plasma>>,
    <<"C11:InputsNotModified", e.inputs>> }
FitClauses(e) ==
  { <<"C11:UncontrolledUntouched", Unc(e)>>,
    <<"C11:LimitsRespected", Lim(e)>>,
    <<"C11:FluxFitIsLeastSquares", e.ev = "fit2d" => e.dx <= 200>>,
    <<"C11:FitNoWorseThanStart", e.gain <= 1000010>>,
    <<"C11:PlasmaUntouched", e.plasma>>,
    <<"C11:InputsNotModified", e.inputs>> }
Is(x) == l < Len(Trace) /\ E.ev = x /\ l' = l + 1
TMake == Is("make") /\ cur' = E.cur /\ ctl' = E.ctl /\ pl' = 0
TCur == Is("cur") /\ SetCur(E.i, E.v)
TCtl == Is("ctl") /\ SetCtl(E.i, E.b)
TPlasma == Is("plasma") /\ SetPlasma(E.p)
TRun == Is("run") /\ Report(l + 1, Failing(RunClauses(E))) /\ cur' = E.cur /\ UNCHANGED <<ctl, pl>>
TFit == (Is("fit2d") \/ Is("adv")) /\ Report(l + 1, Failing(FitClauses(E))) /\ cur' = E.cur /\ UNCHANGED <<ctl, pl>>
TNone == Is("empty") /\ (IF E.raised THEN TRUE ELSE Report(l + 1, {"C11:NoConstraintsRefused"})) /\ UNCHANGED cvars
TCrash == Is("crash") /\ Report(l + 1, {"NoUnexpectedException"}) /\ UNCHANGED cvars
TInit == l = 0 /\ cur = <<>> /\ ctl = <<>> /\ pl = 0
TNext == TMake \/ TCur \/ TCtl \/ TPlasma \/ TRun \/ TFit \/ TNone \/ TCrash
TraceSpec == TInit /\ [][TNext]_tv
=============================================================================
