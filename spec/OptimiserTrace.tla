--------------------------- MODULE OptimiserTrace ----------------------------
(* Recorded optimisations, walked with the actions of Optimiser.              *)
EXTENDS Optimiser, TraceKit, FiniteSets
VARIABLES l, x0, bad, donors, varied, mons
tv == <<cfg, pop, trial, best, seen, gen, l, x0, bad, donors, varied, mons>>
E == Trace[l + 1]
At(k) == l < Len(Trace) /\ E.ev = k /\ l' = l + 1
A(e) == [x |-> e.x, s |-> e.s]
TStart == /\ At("start") /\ cfg' = E.cfg /\ x0' = E.x /\ pop' = <<>> /\ trial' = <<>> /\ best' = <<>> /\ seen' = 0
          /\ gen' = 0 /\ bad' = FALSE /\ donors' = {} /\ varied' = {} /\ mons' = 0
Rest == UNCHANGED <<x0, mons>>
FirstRight(e) == { <<"C16:StartIsACandidate", Len(pop) > 0 \/ e.x = x0>>,
                   <<"C16:CandidatesVaryTheStart", Starting(e.x, x0)>> }
TEval == /\ At("eval")
         /\ IF bad THEN UNCHANGED <<cfg, pop, trial, best, seen, gen, donors, varied>> /\ bad' = TRUE
            ELSE IF Len(pop) < cfg.N
            THEN Populate(A(E)) /\ Report(l + 1, Failing(FirstRight(E))) /\ UNCHANGED <<bad, donors, varied>>
            ELSE IF Len(trial) < cfg.N /\ gen < cfg.maxgen
            THEN LET i == Len(trial) + 1 IN
                 /\ Try(A(E)) /\ bad' = FALSE
                 /\ IF Trial(E.x, i) THEN TRUE ELSE Report(l + 1, {"C16:TrialMixesThreeOthers"})
                 /\ donors' = donors \cup {a \in (1..cfg.N) \ {i} : E.x[1] = pop[a].x[1]}
                 /\ varied' = varied \cup {j \in 1..NC : E.x[j] # pop[i].x[j]}
            ELSE /\ bad' = TRUE /\ Report(l + 1, {"C16:OneTrialPerAgentAndGeneration"})
                 /\ UNCHANGED <<cfg, pop, trial, best, seen, gen, donors, varied>>
         /\ Rest
(* what the monitor was shown *)
Shown(e) == { <<"C16:MonitorCountsGenerations", e.gen = gen>>,
              <<"C16:MonitorShowsBestSoFar", e.best.s = seen /\ e.best.again = seen>>,
              <<"C16:AgentReplacedOnlyByBetterTrial", Len(e.pop) = cfg.N /\
                  \A i \in 1..cfg.N : e.pop[i].s = Selected[i].s /\ (trial[i].s # pop[i].s => e.pop[i].x = Selected[i].x)>>,
              <<"C16:CandidatesKeepWhatWasMeasured", \A i \in 1..Len(e.pop) : e.pop[i].again = e.pop[i].s>> }
TMon == /\ At("mon")
        /\ IF bad \/ Len(trial) # cfg.N
           THEN /\ bad' = TRUE /\ UNCHANGED <<cfg, pop, trial, best, seen, gen, mons>>
                /\ IF bad THEN TRUE ELSE Report(l + 1, {"C16:MonitorAfterEachGeneration"})
           ELSE Report(l + 1, Failing(Shown(E))) /\ Generation /\ bad' = FALSE /\ mons' = mons + 1
        /\ UNCHANGED <<x0, donors, varied>>
End(e) == { <<"C16:ResultHasLowestScore", e.s = seen>>,
            <<"C16:ResultKeepsWhatWasMeasured", e.again = e.s>>,
            <<"C16:OriginalNotModified", e.same>>,
            <<"C16:EveryGenerationRun", bad \/ Finished>>,
            <<"C16:ResultIsSolved", e.solved>>,
            <<"C16:EveryAgentCanDonate", e.fair = "donors" => donors = 1..cfg.N>>,
            <<"C16:EveryControlIsVaried", e.fair = "controls" => varied = 1..NC>> }
TEnd == /\ At("end") /\ Report(l + 1, Failing(End(E))) /\ UNCHANGED <<cfg, pop, trial, best, seen, gen, x0, bad, donors, varied, mons>>
SetOf(s) == {s[i] : i \in 1..Len(s)}
Picks(e) ==
  LET ok == (0..(e.N - 1)) \ SetOf(e.e)
      all == UNION {SetOf(e.calls[i]) : i \in 1..Len(e.calls)}
      first == {e.calls[i][1] : i \in {k \in 1..Len(e.calls) : Len(e.calls[k]) > 0}}
  IN { <<"C16:PicksAreAllowed", \A i \in 1..Len(e.calls) : Len(e.calls[i]) = e.m /\ SetOf(e.calls[i]) \subseteq ok>>,
       <<"C16:PicksAreDifferent", \A i \in 1..Len(e.calls) : Cardinality(SetOf(e.calls[i])) = Len(e.calls[i])>>,
       <<"C16:EveryValueCanBePicked", first = ok /\ all = ok>>,
       <<"C16:ExcludedListNotModified", e.same>> }
TPick == /\ At("pick") /\ Report(l + 1, Failing(Picks(E))) /\ UNCHANGED <<cfg, pop, trial, best, seen, gen, x0, bad, donors, varied, mons>>
Ctl(e) == { <<"C16:ControlWithinLimits", e.got = (IF e.haslo /\ e.v < e.lo THEN e.lo ELSE IF e.hashi /\ e.v > e.hi THEN e.hi ELSE e.v)>>,
            <<"C16:ControlReadsBack", e.read = e.got>>,
            <<"C16:ControlMovesOnlyItsCoil", e.others>> }
TCtl == /\ At("ctl") /\ Report(l + 1, Failing(Ctl(E))) /\ UNCHANGED <<cfg, pop, trial, best, seen, gen, x0, bad, donors, varied, mons>>
RECURSIVE WSum(_, _)
WSum(e, n) == IF n = 0 THEN 0 ELSE e.f[n] * e.w[n] + WSum(e, n - 1)
TSum == /\ At("sum") /\ Report(l + 1, Failing({ <<"C16:WeightedSum", E.got = WSum(E, Len(E.f))>> }))
        /\ UNCHANGED <<cfg, pop, trial, best, seen, gen, x0, bad, donors, varied, mons>>
TCrash == /\ At("crash") /\ Report(l + 1, {"NoUnexpectedException"})
          /\ UNCHANGED <<cfg, pop, trial, best, seen, gen, x0, bad, donors, varied, mons>>
TInit == l = 0 /\ x0 = <<>> /\ bad = FALSE /\ donors = {} /\ varied = {} /\ mons = 0
         /\ cfg = [N |-> 0] /\ pop = <<>> /\ trial = <<>> /\ best = <<>> /\ seen = 0 /\ gen = 0
TNext == TStart \/ TEval \/ TMon \/ TEnd \/ TPick \/ TCtl \/ TSum \/ TCrash
TraceSpec == TInit /\ [][TNext]_tv
=============================================================================
