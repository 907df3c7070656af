------------------------------ MODULE Solution -------------------------------
(* What freegs.solve is for: an equilibrium for a request.  A request is      *)
(*   x     the shape asked for (X-points and points of equal flux)            *)
(*   prof  which profile constraint, "pax" or "beta"                          *)
(*   ip    plasma current, a non-zero integer (units of 100 kA)               *)
(*   par   axis pressure (units of 125 Pa) or poloidal beta (hundredths)      *)
(* The answer depends on the request and the mesh only: not on what was       *)
(* solved before, nor on the currents the coils carried.  It also scales:     *)
(* flux and coil currents with the current, pressure with its square, so all  *)
(* requests with one Key share one normalised answer.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES conf, state, book
solv == <<conf, state, book>>
Sq(n) == n * n
RatioN(r) == IF r.prof = "pax" THEN r.par * (36 \div Sq(r.ip)) ELSE r.par      \* exact: |ip| is 1, 2 or 3
Key(c, r) == [mesh |-> c.mesh, bnd |-> c.bnd, x |-> r.x, prof |-> r.prof, ratio |-> RatioN(r)]
None == [x |-> 0]
Known(k) == k \in DOMAIN book
Learn(k, a) == book' = IF Known(k) THEN book ELSE (k :> a) @@ book
Solve(r, a) == state' = r /\ Learn(Key(conf, r), a) /\ UNCHANGED conf
Kick == state' = None /\ UNCHANGED <<conf, book>>
Make(c) == conf' = c /\ state' = None /\ UNCHANGED book
(* ------------------------- small instance for TLC ------------------------ *)
\* the environment: some answer for every key
Truth(k) == <<k.x, k.ratio % 7, k.mesh>>
Confs == {[mesh |-> m, bnd |-> b] : m \in {1, 2}, b \in {1}}
Reqs == {[x |-> x, prof |-> p, ip |-> i, par |-> q] : x \in {1, 2}, p \in {"pax", "beta"}, i \in {-2, 1, 2}, q \in {4, 16}}
Init == conf \in Confs /\ state = None /\ book = <<>>
Next == \/ \E c \in Confs : Make(c)
        \/ Kick
        \/ \E r \in Reqs : Solve(r, Truth(Key(conf, r)))
Spec == Init /\ [][Next]_solv
View == <<conf, state, Cardinality(DOMAIN book) < 4>>
Few == Cardinality(DOMAIN book) < 4
AnswersAgree == \A k \in DOMAIN book : book[k] = Truth(k)
SignIrrelevant == \A r \in Reqs, c \in Confs : Key(c, [r EXCEPT !.ip = -@]) = Key(c, r)
Scales == \A c \in Confs : Key(c, [x |-> 1, prof |-> "pax", ip |-> 2, par |-> 16]) = Key(c, [x |-> 1, prof |-> "pax", ip |-> 1, par |-> 4])
LearntForGood == [][\A k \in DOMAIN book : k \in DOMAIN book' /\ book'[k] = book[k]]_solv
=============================================================================
