---------------------------- MODULE MachineTrace ----------------------------
(* Recorded executions of the real coil classes, judged against Machine.      *)
EXTENDS Machine, TraceKit
VARIABLE l
tvars == <<lay, cur, ctl, trn, pos, l>>

E == Trace[l + 1]

\* Clauses over the state reached by the operation whose observation is o.
Clauses(o) ==
  LET els == Elements
      n == Len(Layout)
      \* t: hundredths of an ampere-turn; sources are hundreds to thousands of them
      recof(rec, t, S) == \A e \in S : \A p \in Parts(e) :
                       LET q == rec[e][p] IN
                       \A r, z \in {0, 1} :
                         LET want == IF pos[e][p] = <<r, z>> THEN Src100(e, p) ELSE 0
                             wantm == IF pos[e][p] = <<r, z>> THEN SrcM100(e, p) ELSE 0 IN
                         /\ Near(q[1 + 2 * r + z], want, t)
                         /\ Near(q[5 + 2 * r + z], wantm, t)
      recok(rec, t) == recof(rec, t, els)
      unitok(rec, e) == \A p \in Parts(e) :
                         \A r, z \in {0, 1} :
                           LET q == rec[p]
                               want == IF pos[e][p] = <<r, z>> THEN Unit10(e, p) * 100 ELSE 0
                               wantm == IF pos[e][p] = <<r, z>> THEN UnitM10(e, p) * 100 ELSE 0 IN
                           /\ Near(q[1 + 2 * r + z], want, 60)
                           /\ Near(q[5 + 2 * r + z], wantm, 60)
      cs == ControlSeq
  IN {
    <<"C02:CircuitCurrentReadBack", \A e \in els : o.cur[e] = 100 * cur[e]>>,
    <<"C02:CoilCarriesMultiplierTimesCircuit",
        \A e \in els : \A p \in Parts(e) : o.pcur[e][p] = 10 * PartCurrent10(e, p)
                                            /\ o.pcur0[e][p] = 10 * PartCurrent10(e, p)>>,
    <<"C02:CircuitFieldFollowsCurrent",
        LET cs2 == {e \in els : Len(Layout[e].parts) > 1} IN
        recof(o.rec.psi, 30, cs2) /\ recof(o.rec.green, 30, cs2) /\ recof(o.rec.br, 1000, cs2) /\ recof(o.rec.bz, 1000, cs2)>>,
    <<"C02:ControlFlagPropagates", \A e \in els : \A p \in Parts(e) : o.pctl[e][p] = ctl[e]>>,
    <<"C02:ControlFlagReadBack", \A e \in els : o.ctl[e] = ctl[e]>>,
    <<"C02:CircuitFluxIsSumOfCoils", o.circsum <= 2>>,
    <<"C03:GetCurrents", \A e \in els : o.getcur[e] = 100 * cur[e]>>,
    <<"C03:ControlVectorLength", Len(o.ctlcur) = Len(cs)>>,
    <<"C03:ControlVectorOrderAndValue",
        Len(o.ctlcur) = Len(cs) => \A i \in 1..Len(cs) : o.ctlcur[i] = 100 * cur[cs[i]]>>,
    <<"C03:UncontrolledUnchanged", \A e \in els : ~ ctl[e] => o.cur[e] = 100 * cur[e]>>,
    <<"C03:ResponseLength", \A q \in {"psi", "br", "bz"} : Len(o.resp[q]) = Len(cs)>>,
    <<"C03:ResponsePsi", Len(o.resp.psi) = Len(cs) => \A i \in 1..Len(cs) : unitok(o.resp.psi[i], cs[i])>>,
    <<"C03:ResponseBr",  Len(o.resp.br) = Len(cs) => \A i \in 1..Len(cs) : unitok(o.resp.br[i], cs[i])>>,
    <<"C03:ResponseBz",  Len(o.resp.bz) = Len(cs) => \A i \in 1..Len(cs) : unitok(o.resp.bz[i], cs[i])>>,
    <<"C01:Psi", recok(o.rec.psi, 30) /\ o.res.psi <= 30>>,
    <<"C01:Br", recok(o.rec.br, 1000) /\ o.res.br <= 500>>,
    <<"C01:Bz", recok(o.rec.bz, 1000) /\ o.res.bz <= 500>>,
    <<"C01:PsiOnGridFromResponses", recok(o.rec.green, 30) /\ o.res.green <= 30>>,
    <<"C01:ScalarsAgreeWithArrays", o.scal <= 2>>,
    <<"C01:PsiOfEmptyCurrentIsZero", (\A e \in els : cur[e] = 0) => o.zero = 0>>,
    <<"C01:PositionReadBack", \A e \in els : \A p \in Parts(e) :
          Movable(Layout[e].parts[p].k) => o.pos[e][p] = pos[e][p]>>,
    <<"C01:TurnsReadBack", \A e \in els : \A p \in Parts(e) : o.trn[e][p] = trn[e][p]>>
  }

\* Every step first judges the observation recorded with the previous event, in
\* the state which that event led to; a last step judges the last event.
Judge == (l \in 1..Len(Trace) /\ "obs" \in DOMAIN Trace[l]) => Report(l, Failing(Clauses(Trace[l].obs)))
IsEv(n) == l < Len(Trace) /\ E.ev = n /\ l' = l + 1

TBuild == IsEv("build") /\ Build(E.lay, E.cur0, E.trn0, E.ctl0)
TSetCurrent == (IsEv("setcur") \/ IsEv("pokeset")) /\ SetCurrent(E.e, E.v)
TSetControl == IsEv("setctl") /\ SetControl(E.e, E.b)
TSetTurns == IsEv("setturns") /\ SetTurns(E.e, E.p, E.v)
TMoveR == IsEv("mover") /\ MoveR(E.e, E.p, E.v)
TMoveZ == IsEv("movez") /\ MoveZ(E.e, E.p, E.v)
TAdjust == IsEv("adjust") /\ ControlAdjust(E.v)
TSetCtlCur == IsEv("setctlcur") /\ SetControlCurrents(E.v)
TCrash == IsEv("crash") /\ UNCHANGED mvars /\ Report(l + 1, {"NoUnexpectedException"})
TEnd == l = Len(Trace) /\ l' = l + 1 /\ UNCHANGED mvars

TInit == l = 0 /\ lay = 1 /\ cur = <<0, 0, 0>> /\ ctl = <<TRUE, TRUE, TRUE>>
         /\ trn = <<<<1>>, <<1>>, <<1>>>> /\ pos = <<<<<<0, 0>>>>, <<<<0, 0>>>>, <<<<0, 0>>>>>>
TNext == /\ Judge
         /\ TBuild \/ TSetCurrent \/ TSetControl \/ TSetTurns \/ TMoveR \/ TMoveZ
            \/ TAdjust \/ TSetCtlCur \/ TCrash \/ TEnd
TraceSpec == TInit /\ [][TNext]_tvars
Finished == PrintT(<<"DONE", TLCGet("stats").diameter - 2>>)
=============================================================================
