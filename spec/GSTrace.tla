------------------------------- MODULE GSTrace -------------------------------
(* Recorded linear solves of the real code, judged against GS.                *)
EXTENDS GS, TraceKit
VARIABLE l
tv == <<conf, kind, poly, amp, shp, l>>
E == Trace[l + 1]
Clauses(o) ==
  { <<"C09:PlasmaCurrentIsIntegralOfDensity", o.ip <= o.iptol>>,
    <<"C09:CurrentDensityKept", o.jtor = 0>>,
    <<"C09:InputsNotModified", o.inputs>> }
  \cup (IF kind = "poly" THEN
         { <<"C09:SolutionIsThePolynomial", \A d \in Mono(conf.order) :
               Near(o.rec[1 + d[1]][1 + d[2]], 1000 * Coef(poly, d[1], d[2]), 2)>>,
           <<"C09:SolutionExact", o.err <= 2>>,
           <<"C09:BoundaryValuesKept", o.bnd <= 1>>,
           <<"C09:EllipticOperator", o.oper <= 5>> } ELSE {})
  \cup (IF kind = "fixed" THEN
         { <<"C09:FixedBoundaryIsZero", o.bnd <= 1>>,
           <<"C09:FixedBoundarySolution", Near(o.amp, 100000 * amp, 2) /\ o.err <= 5>> } ELSE {})
  \cup (IF kind = "free" THEN
         { <<"C09:FreeBoundaryFlux", o.bnd <= (IF conf.bnd = "free" THEN 400 ELSE 18000)>>,
           <<"C09:FreeBoundarySolution", o.err <= (IF conf.bnd = "free" THEN 2000 ELSE 18000)>> } ELSE {})
Judge == (l \in 1..Len(Trace) /\ "obs" \in DOMAIN Trace[l]) => Report(l, Failing(Clauses(Trace[l].obs)))
Is(n) == l < Len(Trace) /\ E.ev = n /\ l' = l + 1
TStart == Is("start") /\ conf' = E.c /\ kind' = "none" /\ poly' = <<>> /\ amp' = 0 /\ shp' = 1
TPoly == Is("poly") /\ SolvePoly(E.p)
TFixed == Is("fixed") /\ SolveFixed(E.a)
TFree == Is("free") /\ SolveFree(E.a, E.s)
TCrash == Is("crash") /\ Report(l + 1, {"NoUnexpectedException"}) /\ UNCHANGED gsvars
TEnd == l = Len(Trace) /\ l' = l + 1 /\ UNCHANGED gsvars
TInit == l = 0 /\ Start(Cf(17, 17, 1, 2, "given"))
TNext == Judge /\ (TStart \/ TPoly \/ TFixed \/ TFree \/ TCrash \/ TEnd)
TraceSpec == TInit /\ [][TNext]_tv
Finished == PrintT(<<"DONE", TLCGet("stats").diameter - 2>>)
=============================================================================
