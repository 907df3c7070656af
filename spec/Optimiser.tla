------------------------------ MODULE Optimiser ------------------------------
(* Differential evolution over opaque objects, seen from outside: candidates  *)
(* are measured one after the other; after each generation the monitor is     *)
(* given the best candidate and the population; the best one is returned.     *)
(*   cfg   number of agents, generations, weight F10/10, crossover class,     *)
(*         limits of the controls                                             *)
(*   pop   agents of this generation  [x |-> control values, s |-> score]     *)
(*   trial the candidates measured in this generation so far                  *)
(*   best  <<best candidate measured so far>>                                 *)
(*   seen  lowest score measured so far (history variable)                    *)
(*   gen   generations finished                                               *)
EXTENDS Integers, Sequences, TLC
VARIABLES cfg, pop, trial, best, seen, gen
ovars == <<cfg, pop, trial, best, seen, gen>>

NC == Len(cfg.lo)
Clamp(j, v) == IF v < cfg.lo[j] THEN cfg.lo[j] ELSE IF v > cfg.hi[j] THEN cfg.hi[j] ELSE v
(* tenfold value donor a, b, c give control j before limits *)
Mixed10(j, a, b, c) == 10 * pop[a].x[j] + cfg.F10 * (pop[b].x[j] - pop[c].x[j])
Close10(v10, w10) == v10 - w10 <= cfg.tol /\ w10 - v10 <= cfg.tol
FromDonors(j, v, a, b, c) == LET m == Mixed10(j, a, b, c)
                             IN \/ Close10(10 * v, m)
                                \/ m >= 10 * cfg.hi[j] /\ v = cfg.hi[j]
                                \/ m <= 10 * cfg.lo[j] /\ v = cfg.lo[j]
Triples(i) == {t \in (1..cfg.N) \X (1..cfg.N) \X (1..cfg.N) :
                 t[1] # i /\ t[2] # i /\ t[3] # i /\ t[1] # t[2] /\ t[1] # t[3] /\ t[2] # t[3]}
(* which controls changed, for crossover never / sometimes / always *)
Crossed(x, i, t) ==
  LET new == {j \in 1..NC : FromDonors(j, x[j], t[1], t[2], t[3])}
      old == {j \in 1..NC : x[j] = pop[i].x[j]}
  IN CASE cfg.cross = "never"  -> \E k \in new : \A j \in 1..NC : j = k \/ j \in old
       [] cfg.cross = "always" -> new = 1..NC
       [] OTHER                -> new # {} /\ new \cup old = 1..NC
Trial(x, i) == \E t \in Triples(i) : Crossed(x, i, t)

Starting(x, x0) == \A j \in 1..NC : x0[j] # 0 => LET d == 10 * (x[j] - x0[j]) IN
                      \/ (d <= (IF x0[j] < 0 THEN -x0[j] ELSE x0[j]) + 10 /\ -d <= (IF x0[j] < 0 THEN -x0[j] ELSE x0[j]) + 10)
                      \/ x[j] \in {cfg.lo[j], cfg.hi[j]}

Better(a, b) == IF a.s < b.s THEN a ELSE b
Measure(a) == /\ best' = (IF best = <<>> THEN <<a>> ELSE <<Better(a, best[1])>>)
              /\ seen' = (IF best = <<>> \/ a.s < seen THEN a.s ELSE seen)
Populate(a) == Len(pop) < cfg.N /\ pop' = Append(pop, a) /\ Measure(a) /\ UNCHANGED <<cfg, trial, gen>>
Try(a) == /\ Len(pop) = cfg.N /\ Len(trial) < cfg.N /\ gen < cfg.maxgen
          /\ trial' = Append(trial, a) /\ Measure(a) /\ UNCHANGED <<cfg, pop, gen>>
Selected == [i \in 1..cfg.N |-> Better(trial[i], pop[i])]
Generation == /\ Len(trial) = cfg.N /\ pop' = Selected /\ trial' = <<>> /\ gen' = gen + 1 /\ UNCHANGED <<cfg, best, seen>>
Finished == gen = cfg.maxgen /\ trial = <<>> /\ Len(pop) = cfg.N
(* ------------------------- small instance for TLC ------------------------ *)
CONSTANTS Vals, Agents, Gens
Score == <<2, 0, 3, 1>>
Agent(v) == [x |-> <<v>>, s |-> Score[v + 1]]
Init == /\ cfg = [N |-> Agents, maxgen |-> Gens, F10 |-> 10, cross |-> "never", lo |-> <<0>>, hi |-> <<3>>, tol |-> 0]
        /\ pop = <<>> /\ trial = <<>> /\ best = <<>> /\ seen = 0 /\ gen = 0
Next == \/ \E v \in Vals : Populate(Agent(v))
        \/ \E v \in Vals : (Len(pop) = cfg.N /\ Len(trial) < cfg.N /\ Trial(<<v>>, Len(trial) + 1)) /\ Try(Agent(v))
        \/ Generation
Spec == Init /\ [][Next]_ovars /\ WF_ovars(Next)
(* ------------------------------ properties ------------------------------- *)
Measured == best # <<>>
BestIsLowest == Measured => best[1].s = seen
BestNotWorseThanPopulation == Measured => \A i \in 1..Len(pop) : best[1].s <= pop[i].s
BestAliveAfterGeneration == (Measured /\ trial = <<>>) => \E i \in 1..Len(pop) : pop[i].s = best[1].s
AgentsNeverGetWorse == [][Len(pop) = cfg.N => \A i \in 1..cfg.N : pop'[i].s <= pop[i].s]_ovars
Ends == <>Finished
=============================================================================
