------------------------------ MODULE GridTrace ------------------------------
(* Recorded operations.  o: every equilibrium afterwards (in order); node and *)
(* far: difference of the new one from its source at common points, and from  *)
(* its flux everywhere, in ppm.                                               *)
EXTENDS Grid, TraceKit
VARIABLE l
tv == <<objs, l>>
E == Trace[l + 1]
Is(x) == l < Len(Trace) /\ E.ev = x /\ l' = l + 1
Acc(o) == LET n == o.low IN IF o.fl = 9 THEN 20000 ELSE IF o.fl > 3 THEN (IF n < 14 THEN 200000 ELSE IF n < 30 THEN 30000 ELSE 10000)   \* solved for a narrow current
          ELSE IF n < 14 THEN 30000 ELSE IF n < 17 THEN 6000 ELSE IF n < 20 THEN 4000 ELSE IF n < 30 THEN 1500 ELSE 400
All(e, s) ==
  { <<"C19:MeshAsAsked", \A j \in 1..Len(s) : e.o[j].nx = s[j].nx /\ e.o[j].ny = s[j].ny>>,
    <<"C19:DomainKept", \A j \in 1..Len(s) : e.o[j].dom = s[j].dom>>,
    <<"C19:SettingsKept", \A j \in 1..Len(s) : e.o[j].set = s[j].set>>,
    <<"C19:CurrentKept", e.ev = "domain" \/ \A j \in 1..Len(s) : Near(e.o[j].ip, s[j].ip, 2)>>,
    <<"C19:OthersNotModified", \A j \in 1..Len(s) : e.o[j].same \/ (e.ev \in {"solve", "step"} /\ j = e.i)>>,
    <<"C19:CallersFluxNotModified", e.given>> }
New(e, o) ==
  { <<"C19:SharedPointsKeepTheirFlux", e.node <= 2>>,
    <<"C19:FluxIsTheSame", e.far <= Acc(o)>>,
    <<"C19:ProfilesComeAlong", e.prof>> }
Dom(e, o, src) ==
  { <<"C19:NewDomainKeepsThePlasma", e.far <= 20000>>,
    <<"C19:NewDomainKeepsTheCurrent", Abs(e.o[Len(e.o)].ip - src.ip) <= 1 + Abs(src.ip) \div 100>>,
    <<"C19:ProfilesComeAlong", e.prof>> }
Judge(e, s) == Report(l + 1, Failing(All(e, s)))
TMake == Is("make") /\ objs' = <<[Obj(E.nx, E.ny, E.dom, E.set, E.ip, E.f) EXCEPT !.ip = E.ip]>> /\ Judge(E, objs')
TRefine == Is("refine") /\ Refine(E.i) /\ Judge(E, objs') /\ Report(l + 1, Failing(New(E, objs'[Len(objs')])))
TRefineTo == Is("refineto") /\ RefineTo(E.i, E.nx, E.ny) /\ Judge(E, objs') /\ Report(l + 1, Failing(New(E, objs'[Len(objs')])))
TCoarsen == Is("coarsen") /\ Coarsen(E.i) /\ Judge(E, objs') /\ Report(l + 1, Failing(New(E, objs'[Len(objs')])))
TSolve == Is("solve") /\ Solve(E.i, E.f, E.ip) /\ Judge(E, objs') /\ Report(l + 1, Failing({ <<"C19:SolvesLikeAFreshOne", E.far <= 2>> }))
TDomain == /\ Is("domain")
           /\ LET o == [Moved(objs[E.i], E.dom, E.nx, E.ny) EXCEPT !.ip = E.o[Len(E.o)].ip]
              IN Add(o) /\ Judge(E, objs') /\ Report(l + 1, Failing(Dom(E, o, objs[E.i])))
TStep == /\ Is("step") /\ Step(E.i, E.o[E.i].ip) /\ Judge(E, objs')
         /\ Report(l + 1, Failing({ <<"C19:SolvingAgainKeepsThePlasma", E.far <= 20000 /\ Abs(E.o[E.i].ip - objs[E.i].ip) <= 1 + Abs(objs[E.i].ip) \div 100>>,
                                    <<"C19:ProfilesComeAlong", E.prof>> }))
TCrash == Is("crash") /\ Report(l + 1, {"NoUnexpectedException"}) /\ UNCHANGED objs
TInit == l = 0 /\ objs = <<>>
TNext == TMake \/ TRefine \/ TRefineTo \/ TCoarsen \/ TSolve \/ TDomain \/ TStep \/ TCrash
TraceSpec == TInit /\ [][TNext]_tv
=============================================================================
