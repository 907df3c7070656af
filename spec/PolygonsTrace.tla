---------------------------- MODULE PolygonsTrace ----------------------------
(* Recorded answers of polygons and quadrature, judged exactly.               *)
EXTENDS Polygons, TraceKit
VARIABLE l
E == Trace[l + 1]
Deg(m) == m[1] + m[2]
Clauses(e) ==
  LET p == e.poly
      tr == e.tri
      A == Area2(p)
      cp == IF A < 0 THEN Reverse(p) ELSE p
  IN { <<"C20:AreaWithSign", Near(e.area, 100 * A, 1)>>,
       <<"C20:ClockwiseIsPositive", e.cw = (A > 0)>>,
       <<"C20:TwoFewerTrianglesThanVertices", RightNumber(p, tr)>>,
       <<"C20:TrianglesUseThePolygonsVertices", OwnVertices(p, tr)>>,
       <<"C20:TrianglesClockwise", AllClockwise(tr)>>,
       <<"C20:TrianglesCoverTheArea", AreasAdd(p, tr)>>,
       <<"C20:TrianglesDoNotOverlap", NoOverlap(tr)>>,
       <<"C20:InputNotModified", e.same>> }
     \cup
     { <<"C20:CrossingCurvesIntersect", CurvesCross(x.p, x.cp, x.q, x.cq) => x.yes>> : x \in {e.cross[i] : i \in 1..Len(e.cross)} }
     \cup
     { <<"C20:SeparateCurvesDoNotIntersect", x.yes => CurvesMeet(x.p, x.cp, x.q, x.cq)>> : x \in {e.cross[i] : i \in 1..Len(e.cross)} }
Quad(e) ==
  LET cp == IF Area2(e.poly) < 0 THEN Reverse(e.poly) ELSE e.poly
      order == CASE e.n = 1 -> 1 [] e.n = 3 -> 2 [] OTHER -> 4
  IN { <<"C20:PointsPerTriangle", e.npts = e.n * (Len(cp) - 2)>>,
       <<"C20:WeightsSumToOne", Near(e.wsum, 1000000, 1)>>,
       <<"C20:WeightsNotNegative", e.wmin >= 0>>,
       <<"C20:PointsInsideThePolygon", \A i \in 1..Len(e.pts) : Inside([k \in 1..Len(cp) |-> <<1000 * cp[k][1], 1000 * cp[k][2]>>], e.pts[i])>>,
       <<"C20:AveragesOfPolynomialsExact", \A i \in 1..Len(e.mom) :
            LET m == e.mom[i] IN (m.a + m.b <= order) => Near(m.v, 100 * Moment(cp, m.a, m.b), 2)>> }
TPoly == /\ l < Len(Trace) /\ E.ev = "poly" /\ l' = l + 1 /\ Report(l + 1, Failing(Clauses(E))) /\ UNCHANGED pvars
TQuad == /\ l < Len(Trace) /\ E.ev = "quad" /\ l' = l + 1 /\ Report(l + 1, Failing(Quad(E))) /\ UNCHANGED pvars
TRefuse == /\ l < Len(Trace) /\ E.ev = "refuse" /\ l' = l + 1
           /\ Report(l + 1, Failing({<<"C20:UnknownRuleRefused", E.refused>>})) /\ UNCHANGED pvars
TCrash == /\ l < Len(Trace) /\ E.ev = "crash" /\ l' = l + 1
          /\ Report(l + 1, {"NoUnexpectedException"}) /\ UNCHANGED pvars
TInit == l = 0 /\ poly = <<>> /\ rest = <<>> /\ cut = <<>>
TNext == TPoly \/ TQuad \/ TRefuse \/ TCrash
TraceSpec == TInit /\ [][TNext]_<<poly, rest, cut, l>>
=============================================================================
