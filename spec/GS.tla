---------------------------------- MODULE GS ----------------------------------
(* The linear Grad-Shafranov solve.  Fluxes are polynomials in (R, Z) with    *)
(* integer coefficients, on which the operator                                *)
(*     DeltaStar u = R d/dR (1/R du/dR) + d2u/dZ2                             *)
(* acts exactly.  A solver of order 2 (4) reproduces every polynomial of      *)
(* degree at most 2 (4) in R and 3 (5) in Z; one which does not is not        *)
(* solving the Grad-Shafranov equation to its order.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Confs, MaxTerms, Coefs, Amps

VARIABLES conf, kind, poly, amp, shp
gsvars == <<conf, kind, poly, amp, shp>>

Mono(order) == IF order = 2 THEN (0..2) \X (0..3) ELSE (0..4) \X (0..5)
Degs == (-1..4) \X (0..5)
\* a polynomial is a sequence of <<m, n, c>> with distinct <<m, n>>
Coef(p, m, n) == LET S == {i \in 1..Len(p) : p[i][1] = m /\ p[i][2] = n} IN
                 IF S = {} THEN 0 ELSE p[CHOOSE i \in S : TRUE][3]
Distinct(p) == \A i, j \in 1..Len(p) : i # j => <<p[i][1], p[i][2]>> # <<p[j][1], p[j][2]>>

\* the operator on a monomial: a sequence of terms (exponents may be repeated)
D1(m, n, c) == (IF m * (m - 2) # 0 THEN <<<<m - 2, n, c * m * (m - 2)>>>> ELSE <<>>)
               \o (IF n * (n - 1) # 0 THEN <<<<m, n - 2, c * n * (n - 1)>>>> ELSE <<>>)
RECURSIVE DeltaStar(_)
DeltaStar(p) == IF p = <<>> THEN <<>> ELSE D1(p[1][1], p[1][2], p[1][3]) \o DeltaStar(Tail(p))
RECURSIVE Total(_, _, _)
Total(p, m, n) == IF p = <<>> THEN 0
                  ELSE (IF p[1][1] = m /\ p[1][2] = n THEN p[1][3] ELSE 0) + Total(Tail(p), m, n)

Cf(nx, ny, d, o, b) == [nx |-> nx, ny |-> ny, dom |-> d, order |-> o, bnd |-> b]

Terms(order) == {<<t[1], t[2], c>> : t \in Mono(order), c \in Coefs}
Start(c) == conf = c /\ kind = "none" /\ poly = <<>> /\ amp = 0 /\ shp = 1
\* a solve with boundary values and current of a polynomial flux
SolvePoly(p) == /\ conf.bnd = "given" /\ Distinct(p)
                /\ kind' = "poly" /\ poly' = p /\ amp' = 0 /\ shp' = 1 /\ UNCHANGED conf
\* zero flux on the edge: the solution is amp times the bubble which vanishes there
SolveFixed(a) == /\ conf.bnd = "fixed"
                 /\ kind' = "fixed" /\ amp' = a /\ poly' = <<>> /\ shp' = 1 /\ UNCHANGED conf
\* free boundary: the flux is that of the plasma current in free space
SolveFree(a, s) == /\ conf.bnd \in {"free", "hagenow"}
                   /\ kind' = "free" /\ amp' = a /\ shp' = s /\ poly' = <<>> /\ UNCHANGED conf

Init == \E c \in Confs : Start(c)
Next == \/ \E t1, t2 \in Terms(conf.order) : SolvePoly(<<t1, t2>>)
        \/ \E t1 \in Terms(conf.order) : SolvePoly(<<t1>>)
        \/ \E a \in Amps : SolveFixed(a)
        \/ \E a \in Amps, s \in {1, 2} : SolveFree(a, s)
Spec == Init /\ [][Next]_gsvars

(* ------------------------------ properties ------------------------------- *)
\* the operator lowers the total degree by two
DegreeDrops == \A i \in 1..Len(DeltaStar(poly)) :
                 \E j \in 1..Len(poly) : DeltaStar(poly)[i][1] + DeltaStar(poly)[i][2] = poly[j][1] + poly[j][2] - 2
\* vacuum fluxes: exactly those without current
Vacuum == (\A i \in 1..Len(poly) : poly[i][1] \in {0, 2} /\ poly[i][2] \in {0, 1}) => DeltaStar(poly) = <<>>
\* linearity in the coefficients
Doubling == \A d \in Degs : Total(DeltaStar([i \in 1..Len(poly) |-> <<poly[i][1], poly[i][2], 2 * poly[i][3]>>]), d[1], d[2])
                            = 2 * Total(DeltaStar(poly), d[1], d[2])
SmallCoefs == {1, -2}
BigCoefs == {1, -2, 3}
SmallAmps == {1}
BigAmps == {-3, 1, 2, 0}
SmallConfs == {Cf(17, 17, 1, 4, "given"), Cf(17, 17, 1, 2, "given"), Cf(17, 17, 1, 4, "fixed")}
BigConfs == {Cf(nx, ny, d, o, "given") : nx \in {9, 17, 33}, ny \in {9, 17, 65}, d \in 1..3, o \in {2, 4}}
            \cup {Cf(nx, ny, d, 4, "fixed") : nx \in {17, 33}, ny \in {17, 33, 65}, d \in 1..3}
            \cup {Cf(n[1], n[2], 4, o, b) : n \in {<<65, 65>>, <<65, 129>>, <<33, 65>>}, o \in {2, 4}, b \in {"free", "hagenow"}}
=============================================================================
