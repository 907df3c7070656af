----------------------------- MODULE PicardTrace -----------------------------
(* Recorded runs of the real Picard loop over scripted linear solves.         *)
(* Events: start; con (the control system was called and added d); solve (the *)
(* linear solve was called: flux and boundary it was handed, whether limiter  *)
(* checking was on, and what it answered); end (the call returned or raised). *)
EXTENDS Picard, Json, IOUtils
VARIABLES l, chg
tvars == <<cfg, pc, it, eqpsi, psi, last, bnd, bchg, ebnd, lim, everlim, checking, outcome, nrec, l, chg>>

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Report(i, cl) == \A c \in cl : PrintT(<<"FAIL", i, c>>)
Failing(cl) == { c[1] : c \in { x \in cl : ~ x[2] } }
Near(x, y, t) == Abs(x - y) <= t
Finished == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)

E == Trace[l + 1]
Is(n) == l < Len(Trace) /\ E.ev = n /\ l' = l + 1
Say(cl) == Report(l + 1, Failing(cl))
Exhausted == cfg.maxits # 0 /\ it + 1 > cfg.maxits

TStart ==
  /\ Is("start")
  /\ cfg' = E.c /\ it' = 0 /\ eqpsi' = E.a * Unit /\ psi' = E.a * Unit /\ last' = E.a * Unit
  /\ bnd' = 0 /\ bchg' = INF /\ ebnd' = E.b /\ lim' = E.l0 /\ everlim' = FALSE
  /\ checking' = FALSE /\ outcome' = "running" /\ nrec' = 0 /\ chg' = <<>>
  /\ pc' = IF E.c.con THEN "constrain0" ELSE "ready"

\* The control system runs before the first solve and after each solve which did
\* not converge, and at no other time.
TCon ==
  /\ Is("con") /\ chg' = chg
  /\ \/ pc = "constrain0" /\ Constrain0(E.d)
     \/ pc = "decide" /\ cfg.con /\ ~ Converged /\ Step(E.d)
     \/ /\ ~ (pc = "constrain0" \/ (pc = "decide" /\ cfg.con /\ ~ Converged))
        /\ Say({<<"C08:ControlRunsOncePerIteration", pc = "decide">>,
                <<"C08:NoAdjustmentAfterConvergence", ~ (pc = "decide" /\ Converged)>>})
        /\ eqpsi' = eqpsi + E.d * Unit
        /\ UNCHANGED <<cfg, pc, it, psi, last, bnd, bchg, ebnd, lim, everlim, checking, outcome, nrec>>

\* Where the loop stands when a linear solve starts.  Without a control system
\* the step between two iterations is not observable and is folded in here.
Pre == IF pc = "decide" /\ ~ cfg.con
       THEN [it |-> it + 1, psi |-> Blend(eqpsi, last)]
       ELSE [it |-> it, psi |-> psi]
TSolve ==
  /\ Is("solve")
  /\ LET pre == Pre
         chk == cfg.chk /\ (pre.it >= cfg.lit \/ everlim) IN
     /\ Say({ <<"C08:ControlRunsBeforeFirstSolve", pc # "constrain0">>,
              <<"C08:ControlRunsOncePerIteration", ~ (pc = "decide" /\ cfg.con /\ ~ Converged)>>,
              <<"C08:StopsWhenConverged", ~ (pc = "decide" /\ Converged)>>,
              <<"C08:IterationLimit", ~ (pc = "done" /\ outcome = "too many")
                                      /\ ~ (pc = "decide" /\ ~ cfg.con /\ Exhausted)>>,
              <<"C08:BlendedFluxHandedToSolve", Near(E.psi, pre.psi, 2)>>,
              <<"C08:LimiterCheckGating", E.chk = chk>>,
              <<"C08:BoundaryHandedToSolve", E.bnd = (IF chk THEN ebnd ELSE cfg.ub)>>,
              <<"C08:ProfilesHandedToSolve", E.prof>> })
     /\ it' = pre.it /\ last' = pre.psi /\ checking' = chk
     /\ eqpsi' = E.a * Unit /\ psi' = E.a * Unit /\ ebnd' = E.b /\ lim' = E.li
     /\ everlim' = (everlim \/ E.li)
     /\ IF E.b # NoBnd THEN bnd' = E.b /\ bchg' = bnd - E.b ELSE bnd' = bnd /\ bchg' = INF
     /\ nrec' = nrec + 1 /\ pc' = "decide"
     /\ chg' = Append(chg, Abs(pre.psi - E.a * Unit))
     /\ UNCHANGED <<cfg, outcome>>

\* what the call must do now
Expected == IF pc = "done" THEN outcome
            ELSE IF pc = "decide" /\ Converged THEN "converged"
            ELSE IF pc = "decide" /\ ~ cfg.con /\ Exhausted THEN "too many"
            ELSE "go on"
TEnd ==
  /\ Is("end")
  /\ Say({ <<"C08:SuccessOnlyWhenConverged", E.out = "converged" => Expected = "converged">>,
           <<"C08:ReportsNonConvergence", E.out = "too many" => Expected = "too many">>,
           <<"C08:RaisesAtTheLimit", Expected = "too many" => E.out = "too many">>,
           <<"C08:StopsWhenConverged", Expected = "converged" => E.out = "converged">>,
           <<"C08:NoOtherFailure", E.out \in {"converged", "too many", "overrun"}>>,
           <<"C08:EquilibriumIsLastSolve", E.out = "converged" => Near(E.psi, eqpsi, 2)>>,
           <<"C08:HistoryLength", E.out = "converged" => Len(E.maxchg) = nrec /\ Len(E.rel) = nrec>>,
           <<"C08:HistoryValues", (E.out = "converged" /\ Len(E.maxchg) = nrec) =>
                                    \A i \in 1..nrec : Near(E.maxchg[i], chg[i], 2)>> })
  /\ chg' = chg /\ UNCHANGED pvars
TCrash == Is("crash") /\ Report(l + 1, {"NoUnexpectedException"}) /\ chg' = chg /\ UNCHANGED pvars

TInit == /\ l = 0 /\ chg = <<>> /\ cfg = Cfg(3, 0, 0, 1, FALSE, FALSE, FALSE, 0, NoBnd)
         /\ pc = "ready" /\ it = 0 /\ eqpsi = 0 /\ psi = 0 /\ last = 0 /\ bnd = 0 /\ bchg = INF
         /\ ebnd = NoBnd /\ lim = FALSE /\ everlim = FALSE /\ checking = FALSE
         /\ outcome = "running" /\ nrec = 0
TNext == TStart \/ TCon \/ TSolve \/ TEnd \/ TCrash
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
