----------------------------- MODULE StoreTrace ------------------------------
(* Recorded writes and reads.  o: what the equilibrium read back is.          *)
EXTENDS Store, TraceKit
VARIABLE l
tv == <<stvars, l>>
E == Trace[l + 1]
Is(x) == l < Len(Trace) /\ E.ev = x /\ l' = l + 1
NE(s) == Len(s.els)
ReadClauses(e, s) ==
  { <<"C06:CoilsComeBack", Len(e.o.els) = NE(s) /\ \A i \in 1..NE(s) : e.o.els[i].kind = s.els[i].kind>>,
    <<"C06:FieldPerAmpereComesBack", \A i \in 1..Len(e.o.els) : e.o.els[i].resp <= 20 /\ e.o.els[i].pos = s.els[i].pos>>,
    <<"C06:CurrentsComeBack", \A i \in 1..Len(e.o.els) : e.o.els[i].cur = s.els[i].cur /\ e.o.els[i].fld = s.els[i].cur>>,
    <<"C06:ControlFlagsComeBack", \A i \in 1..Len(e.o.els) : e.o.els[i].ctl = s.els[i].ctl>>,
    <<"C06:PlasmaComesBack", e.o.pid = s.pid /\ Near(e.o.ip, s.ip, 1)>>,
    <<"C06:MeshWallBoundaryComeBack", e.o.mesh /\ e.o.wall>>,
    <<"C06:TotalFluxComesBack", e.o.total <= 20>>,
    <<"C06:ReadingLeavesFileAlone", e.file>> }
WriteClauses(e) ==
  { <<"C06:WritesWhatItCan", Storable(live) => e.ok>>,
    <<"C06:FileHoldsTheFlux", e.ok => e.raw>>,
    <<"C06:WritingLeavesEquilibriumAlone", e.same>> }
TMake == Is("make") /\ live' = E.live /\ disk' = [f \in Files |-> Nothing]
TCur == Is("cur") /\ SetCur(E.i, E.v)
TCtl == Is("ctl") /\ SetCtl(E.i, E.b)
TMove == Is("move") /\ Move(E.i, E.p)
TSolve == Is("solve") /\ Report(l + 1, Failing({ <<"C06:BoundaryMethodStillApplies", E.edge <= 150000>> })) /\ Solve(E.pid, E.ip)
TWrite == Is("write") /\ Report(l + 1, Failing(WriteClauses(E))) /\ Write(E.f, E.ok)
TRead == Is("read") /\ (IF disk[E.f] = Nothing THEN UNCHANGED stvars
                        ELSE /\ (IF E.ok THEN Report(l + 1, Failing(ReadClauses(E, disk[E.f]))) ELSE Report(l + 1, {"C06:WhatIsWrittenCanBeRead"}))
                             /\ Read(E.f))
TCrash == Is("crash") /\ Report(l + 1, {"NoUnexpectedException"}) /\ UNCHANGED stvars
TInit == l = 0 /\ live = Nothing /\ disk = [f \in Files |-> Nothing]
TNext == TMake \/ TCur \/ TCtl \/ TMove \/ TSolve \/ TWrite \/ TRead \/ TCrash
TraceSpec == TInit /\ [][TNext]_tv
=============================================================================
