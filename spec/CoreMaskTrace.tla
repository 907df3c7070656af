---------------------------- MODULE CoreMaskTrace ----------------------------
EXTENDS CoreMaskOps, TraceKit
VARIABLES l
E == Trace[l + 1]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Clauses(e) ==
  LET in == SetOf(e.inn)
      X == SetOf(e.x)
      mesh == (1..e.nx) \X (1..e.ny)
      core == CoreOf(in, e.s, X, mesh)
      got == SetOf(e.got)
      B == BlockOf(X, mesh)
  IN { <<"C13:MaskIsTheConnectedCore", got \ B = core \ B>>,
       <<"C13:NearXPointsDecidedByFlux", got \cap B = core \cap B>>,
       <<"C13:MaskIsZeroOrOne", e.binary>>,
       <<"C13:SameForNegatedFlux", e.neg>>,
       <<"C13:GivenBoundaryOverridesXPoint", e.given>>,
       <<"C13:InputsNotModified", e.same>> }
TCase == /\ l < Len(Trace) /\ E.ev = "case" /\ l' = l + 1 /\ Report(l + 1, Failing(Clauses(E)))
TCrash == /\ l < Len(Trace) /\ E.ev = "crash" /\ l' = l + 1 /\ Report(l + 1, {"NoUnexpectedException"})
TraceSpec == l = 0 /\ [][TCase \/ TCrash]_l
=============================================================================
