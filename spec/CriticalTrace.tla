---------------------------- MODULE CriticalTrace ----------------------------
(* Recorded analyses of analytic flux maps, judged against Critical.          *)
EXTENDS Critical, TraceKit
VARIABLE l
tv == <<map, todo, op, xp, pc, l>>
E == Trace[l + 1]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Clauses(e) ==
  LET m == SetOf(e.map)
      O == OPoints(m)
      X == XPoints(m, e.discard)
      t == e.tol
  IN { <<"C12:EveryOPointOnceAndNoOther", Matches(e.o.op, O, t)>>,
       <<"C12:OPointFlux", FluxRight(e.o.op, O, t, e.ptol)>>,
       <<"C12:PrimaryIsNearestToMiddle",
           (O # {} /\ Len(e.o.op) > 0) => Same(e.o.op[1], Primary(m, e.mid), t)>>,
       <<"C12:FurtherOPointsByDistance", OrderedBy(e.o.op, LAMBDA q : Dist2(q, e.mid) - 3)
            \/ \A i \in 1..(Len(e.o.op) - 1) : Dist2(e.o.op[i], e.mid) <= Dist2(e.o.op[i + 1], e.mid) + 30>>,
       <<"C12:EveryBoundingXPointOnceAndNoOther", Matches(e.o.xp, X, t)>>,
       <<"C12:XPointFlux", FluxRight(e.o.xp, X, t, e.ptol)>>,
       <<"C12:XPointsOrderedByFluxFromAxis", Len(e.o.op) > 0 =>
            \A i \in 1..(Len(e.o.xp) - 1) :
               FluxDist(e.o.xp[i], e.o.op[1]) <= FluxDist(e.o.xp[i + 1], e.o.op[1]) + 2 * e.ptol>>,
       <<"C12:PointsAreFieldNulls", e.o.bmax <= 1100>>,
       <<"C12:InputsNotModified", e.o.same>> }
TCase == /\ l < Len(Trace) /\ E.ev = "case" /\ l' = l + 1
         /\ Report(l + 1, Failing(Clauses(E))) /\ UNCHANGED cvars
TCrash == /\ l < Len(Trace) /\ E.ev = "crash" /\ l' = l + 1
          /\ Report(l + 1, {"NoUnexpectedException"}) /\ UNCHANGED cvars
TInit == l = 0 /\ map = {} /\ todo = {} /\ op = <<>> /\ xp = <<>> /\ pc = "scan"
TNext == TCase \/ TCrash
TraceSpec == TInit /\ [][TNext]_tv
=============================================================================
