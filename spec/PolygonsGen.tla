----------------------------- MODULE PolygonsGen -----------------------------
(* Random pairs of simple polygons, grown vertex by vertex, with the size and *)
(* place at which the implementation gets them.                              *)
EXTENDS Polygons, TLC, Json, Randomization
VARIABLES other, how, n
gv == <<poly, rest, cut, other, how, n>>
Pick(S) == CHOOSE x \in RandomSubset(1 + n - n, S) : TRUE
Insertions(p) == {q \in {<<i, v>> : i \in 1..Len(p), v \in RandomSubset(8 + n - n, Points)} :
                    LET w == SubSeq(p, 1, q[1]) \o <<q[2]>> \o SubSeq(p, q[1] + 1, Len(p))
                    IN Simple(w) /\ Clockwise(w)}
GrowOne(p) == LET s == Insertions(p)
              IN IF s = {} THEN p ELSE LET q == Pick(s) IN SubSeq(p, 1, q[1]) \o <<q[2]>> \o SubSeq(p, q[1] + 1, Len(p))
Tri == {t \in Points \X Points \X Points : Cross(t[1], t[2], t[3]) < 0}
How == [scale : {"unit", "mm", "tenth", "odd"}, shift : 0..2, rev : BOOLEAN, turn : 0..4]
GInit == /\ n = 0 /\ cut = <<>> /\ rest = <<>> /\ poly = <<>> /\ other = <<>> /\ how = <<>>
Start == n = 0 /\ n' = 1 /\ poly' = Pick(Tri) /\ other' = Pick(Tri) /\ how' = Pick(How) /\ UNCHANGED <<rest, cut>>
Go == /\ n > 0 /\ n < NMax /\ n' = n + 1
      /\ poly' = GrowOne(poly)
      /\ other' = (IF n % 2 = 0 THEN GrowOne(other) ELSE other)
      /\ UNCHANGED <<rest, cut, how>>
      /\ PrintT("@@" \o ToJson([a |-> poly', b |-> other', how |-> how]))
GNext == Start \/ Go
GSpec == GInit /\ [][GNext]_gv
=============================================================================
