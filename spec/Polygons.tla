------------------------------ MODULE Polygons ------------------------------
(* Polygons with integer vertices <<r, z>>: area, crossing, triangulation and *)
(* moments, all exact.  Triangulation is a transition system: a polygon is    *)
(* reduced by cutting off any ear until one triangle is left.  TLC checks on  *)
(* every simple polygon of the lattice that an ear always exists (so the      *)
(* reduction cannot get stuck), that what is left stays simple, and that the  *)
(* triangles cut off tile the polygon.                                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Side, NMax       \* vertices in 0..Side, polygons of at most NMax vertices

Nx(p, i) == IF i = Len(p) THEN 1 ELSE i + 1
Pv(p, i) == IF i = 1 THEN Len(p) ELSE i - 1

RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)

(* twice the area, positive for clockwise polygons *)
Area2(p) == SumTo(LAMBDA i : (p[Nx(p, i)][1] - p[i][1]) * (p[i][2] + p[Nx(p, i)][2]), Len(p))
Clockwise(p) == Area2(p) > 0
Reverse(p) == [i \in 1..Len(p) |-> p[Len(p) + 1 - i]]

(* > 0: c is to the left of the line from a to b *)
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
InBox(a, b, c) == /\ (IF a[1] < b[1] THEN a[1] ELSE b[1]) <= c[1] /\ c[1] <= (IF a[1] < b[1] THEN b[1] ELSE a[1])
                  /\ (IF a[2] < b[2] THEN a[2] ELSE b[2]) <= c[2] /\ c[2] <= (IF a[2] < b[2] THEN b[2] ELSE a[2])
OnSeg(a, b, c) == Cross(a, b, c) = 0 /\ InBox(a, b, c)

(* the segments ab and cd cross in a single inner point of both *)
Proper(a, b, c, d) == /\ Sgn(Cross(a, b, c)) * Sgn(Cross(a, b, d)) = -1
                      /\ Sgn(Cross(c, d, a)) * Sgn(Cross(c, d, b)) = -1
(* they have a common point *)
Meet(a, b, c, d) == Proper(a, b, c, d) \/ OnSeg(a, b, c) \/ OnSeg(a, b, d) \/ OnSeg(c, d, a) \/ OnSeg(c, d, b)

(* segments of a curve: closed ones also have the one back to the start *)
Segs(p, closed) == IF closed THEN 1..Len(p) ELSE 1..(Len(p) - 1)
CurvesCross(p, cp, q, cq) ==
  \E i \in Segs(p, cp) : \E j \in Segs(q, cq) : Proper(p[i], p[Nx(p, i)], q[j], q[Nx(q, j)])
CurvesMeet(p, cp, q, cq) ==
  \E i \in Segs(p, cp) : \E j \in Segs(q, cq) : Meet(p[i], p[Nx(p, i)], q[j], q[Nx(q, j)])

(* no two vertices coincide, no edges meet except neighbours in their vertex *)
Simple(p) ==
  LET n == Len(p) IN
  /\ n >= 3
  /\ \A i, j \in 1..n : i < j => p[i] # p[j]
  /\ \A i, j \in 1..n : (i < j /\ j # i + 1 /\ ~ (i = 1 /\ j = n)) =>
        ~ Meet(p[i], p[Nx(p, i)], p[j], p[Nx(p, j)])
  /\ \A i \in 1..n : LET a == p[Pv(p, i)] b == p[i] c == p[Nx(p, i)]
                     IN ~ OnSeg(a, b, c) /\ ~ OnSeg(b, c, a)

InTriangle(t, q) == LET s == {Sgn(Cross(t[1], t[2], q)), Sgn(Cross(t[2], t[3], q)), Sgn(Cross(t[3], t[1], q))}
                    IN ~ (1 \in s /\ -1 \in s)
StrictlyIn(t, q) == LET s == {Sgn(Cross(t[1], t[2], q)), Sgn(Cross(t[2], t[3], q)), Sgn(Cross(t[3], t[1], q))}
                    IN s = {1} \/ s = {-1}

(* point q (not on the boundary) inside polygon p, by counting crossings of a ray *)
Inside(p, q) ==
  LET hits == {i \in 1..Len(p) :
        LET a == p[i] b == p[Nx(p, i)]
            up == (a[2] <= q[2]) /\ (b[2] > q[2])
            dn == (b[2] <= q[2]) /\ (a[2] > q[2])
        IN (up /\ Cross(a, b, q) > 0) \/ (dn /\ Cross(a, b, q) < 0)}
  IN Cardinality(hits) % 2 = 1

(* vertex i of the clockwise polygon p can be cut off *)
Ear(p, i) == LET t == <<p[Pv(p, i)], p[i], p[Nx(p, i)]>>
             IN /\ Cross(t[1], t[2], t[3]) <= 0
                /\ Cross(t[1], t[2], t[3]) < 0 =>
                      \A j \in 1..Len(p) : j \notin {Pv(p, i), i, Nx(p, i)} => ~ InTriangle(t, p[j])
Drop(p, i) == SubSeq(p, 1, i - 1) \o SubSeq(p, i + 1, Len(p))

(* a set of triangles (sequence tr) splits the clockwise polygon p *)
TriArea2(t) == Area2(t)
RightNumber(p, tr) == Len(tr) = Len(p) - 2
OwnVertices(p, tr) == \A k \in 1..Len(tr) : Len(tr[k]) = 3 /\ \A v \in 1..3 : \E i \in 1..Len(p) : tr[k][v] = p[i]
AllClockwise(tr) == \A k \in 1..Len(tr) : TriArea2(tr[k]) >= 0
AreasAdd(p, tr) == LET a == Area2(p) IN SumTo(LAMBDA k : TriArea2(tr[k]), Len(tr)) = (IF a < 0 THEN -a ELSE a)
(* interiors of two triangles of non-zero area do not overlap: some edge separates them *)
Separates(t, u) == \E i \in 1..3 : \A v \in 1..3 : Cross(t[i], t[Nx(t, i)], u[v]) >= 0   \* t clockwise: inside is <= 0
NoOverlap(tr) == \A j, k \in 1..Len(tr) : (j < k /\ TriArea2(tr[j]) > 0 /\ TriArea2(tr[k]) > 0) =>
                    Separates(tr[j], tr[k]) \/ Separates(tr[k], tr[j])

(* 1, 2.. moments: (a + b + 2)! times the integral of r^a z^b over the clockwise polygon p *)
RECURSIVE Fact(_), Pow(_, _)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Bin(n, k) == Fact(n) \div (Fact(k) * Fact(n - k))
EdgeMoment(p, q, a, b) ==
  (p[2] * q[1] - p[1] * q[2]) * Fact(a) * Fact(b) *
  SumTo(LAMBDA i1 : SumTo(LAMBDA j1 :
       LET i == i1 - 1 j == j1 - 1
       IN Bin(i + j, i) * Bin(a + b - i - j, a - i) * Pow(p[1], i) * Pow(p[2], j) * Pow(q[1], a - i) * Pow(q[2], b - j),
       b + 1), a + 1)
Moment(p, a, b) == SumTo(LAMBDA i : EdgeMoment(p[i], p[Nx(p, i)], a, b), Len(p))

-----------------------------------------------------------------------------
VARIABLES poly, rest, cut
pvars == <<poly, rest, cut>>

Points == (0..Side) \X (0..Side)
Growing == cut = <<>> /\ rest = poly
(* any simple polygon grows from a triangle by new vertices; not every simple  *)
(* polygon is reached with simple intermediates on a small lattice, but those  *)
(* with an ear whose removal leaves a simple polygon are: all of them          *)
PInit == \E a, b, c \in Points : /\ Cross(a, b, c) < 0 /\ poly = <<a, b, c>> /\ rest = poly /\ cut = <<>>
Grow == /\ Growing /\ Len(poly) < NMax
        /\ \E i \in 1..Len(poly), v \in Points :
              LET p == SubSeq(poly, 1, i) \o <<v>> \o SubSeq(poly, i + 1, Len(poly))
              IN Simple(p) /\ Clockwise(p) /\ poly' = p /\ rest' = p
        /\ UNCHANGED cut
Clip == /\ Len(rest) > 3
        /\ \E i \in 1..Len(rest) : /\ Ear(rest, i)
              /\ cut' = Append(cut, <<rest[Pv(rest, i)], rest[i], rest[Nx(rest, i)]>>)
              /\ rest' = Drop(rest, i)
        /\ UNCHANGED poly
PNext == Grow \/ Clip
PSpec == PInit /\ [][PNext]_pvars

NeverStuck == Len(rest) > 3 => \E i \in 1..Len(rest) : Ear(rest, i)
StaysSimple == Area2(rest) > 0 => Simple(rest)
Tiles == LET tr == Append(cut, rest)
         IN Len(rest) = 3 => /\ RightNumber(poly, tr) /\ OwnVertices(poly, tr) /\ AllClockwise(tr)
                             /\ AreasAdd(poly, tr) /\ NoOverlap(tr)
MomentsAdd == Len(rest) = 3 => \A ab \in {<<0, 0>>, <<1, 0>>, <<0, 2>>, <<2, 1>>} :
                 LET tr == Append(cut, rest)
                 IN Moment(poly, ab[1], ab[2]) = SumTo(LAMBDA k : Moment(tr[k], ab[1], ab[2]), Len(tr))
=============================================================================
