------------------------------- MODULE Picard --------------------------------
(* The nonlinear (Picard) iteration which every equilibrium goes through.     *)
(*                                                                            *)
(* The linear solve is the environment: it answers with a new flux amplitude, *)
(* a boundary flux (or none) and whether the plasma touched the limiter.      *)
(* The control system, when there is one, adds an amplitude of its own.       *)
(* Flux is represented by its amplitude on a fixed shape of range [0, 1], in  *)
(* units of 1/Unit so that repeated blending stays exact.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Amps,      \* amplitudes a linear solve may answer
          Bnds,      \* boundary fluxes; NoBnd stands for "no boundary"
          Adjs,      \* amplitudes the control system may add
          Configs    \* set of configuration records

Unit == 1024
NoBnd == 99
INF == 1000000000
\* configuration: rtol in thousandths, atol (amplitude, in Unit), blend in
\* halves (0 or 1), maxits (0 = no limit), con, chk, wait, limit_it, user boundary
Cfg(r, a, b, m, c, k, w, li, ub) ==
  [rtol |-> r, atol |-> a, blend |-> b, maxits |-> m, con |-> c, chk |-> k,
   wait |-> w, lit |-> li, ub |-> ub]

\* values used by the configurations (TLC's cfg files cannot hold negative numbers)
BigAmps == {-3, 1, 2, 10, 11, 400, 401}
BigBnds == {-2, 0, 3, 5, 300, 301, NoBnd}
BigAdjs == {0, 1, -2}
SmallAmps == {1, 2, 400, 401}
SmallBnds == {0, 3, NoBnd}
SmallAdjs == {0, 1}
SmallConfigs == {Cfg(r, a, b, m, c, k, w, li, NoBnd) : r \in {3, 157}, a \in {0, 2560}, b \in {0, 1}, m \in {1, 2},
                   c \in BOOLEAN, k \in BOOLEAN, w \in BOOLEAN, li \in {0, 1}}

VARIABLES cfg, pc, it,
          eqpsi,     \* amplitude of the equilibrium's own flux
          psi,       \* amplitude handed to the next solve
          last,      \* psi at the start of this iteration
          bnd,       \* last boundary seen by the loop
          bchg,      \* last change of the boundary
          ebnd,      \* the equilibrium's boundary flux now
          lim,       \* the equilibrium is limited now
          everlim, checking, outcome, nrec
pvars == <<cfg, pc, it, eqpsi, psi, last, bnd, bchg, ebnd, lim, everlim, checking, outcome, nrec>>

Abs(x) == IF x < 0 THEN -x ELSE x

\* the state in which solve() is called: an equilibrium with amplitude a0, boundary b0,
\* possibly left limited by an earlier calculation (which must not matter)
Start(c, a0, b0, l0) ==
  /\ cfg = c /\ it = 0 /\ eqpsi = a0 * Unit /\ psi = a0 * Unit /\ last = a0 * Unit
  /\ bnd = 0 /\ bchg = INF /\ ebnd = b0 /\ lim = l0 /\ everlim = FALSE
  /\ checking = FALSE /\ outcome = "running" /\ nrec = 0
  /\ pc = IF c.con THEN "constrain0" ELSE "ready"

\* the control system runs before the first solve
Constrain0(d) ==
  /\ pc = "constrain0"
  /\ eqpsi' = eqpsi + d * Unit /\ psi' = eqpsi' /\ pc' = "ready"
  /\ UNCHANGED <<cfg, it, last, bnd, bchg, ebnd, lim, everlim, checking, outcome, nrec>>

\* limiter checking is on for this iteration
Checking == cfg.chk /\ (it >= cfg.lit \/ everlim)
\* the boundary flux handed to the linear solve
BndArg == IF Checking THEN ebnd ELSE cfg.ub

\* one linear solve: flux psi in; amplitude a, boundary b, limited flag out
Solve(a, b, li) ==
  /\ pc = "ready"
  /\ last' = psi /\ checking' = Checking
  /\ eqpsi' = a * Unit /\ psi' = a * Unit
  /\ ebnd' = b /\ lim' = li
  /\ everlim' = (everlim \/ li)
  /\ IF b # NoBnd THEN bnd' = b /\ bchg' = bnd - b ELSE bnd' = bnd /\ bchg' = INF
  /\ nrec' = nrec + 1
  /\ pc' = "decide"
  /\ UNCHANGED <<cfg, it, outcome>>

PsiChange == Abs(last - psi)
PsiConverged == \/ PsiChange < cfg.atol
                \/ (psi # 0 /\ PsiChange * 1000 < cfg.rtol * Abs(psi))
BndConverged == /\ ebnd # NoBnd
                /\ \/ Abs(bchg) * Unit < cfg.atol
                   \/ (bnd # 0 /\ Abs(bchg) * 1000 < cfg.rtol * Abs(bnd))
MayStop == (~ cfg.wait) \/ lim
Converged == PsiConverged /\ BndConverged /\ MayStop

Return ==
  /\ pc = "decide" /\ Converged
  /\ pc' = "done" /\ outcome' = "converged"
  /\ UNCHANGED <<cfg, it, eqpsi, psi, last, bnd, bchg, ebnd, lim, everlim, checking, nrec>>

Blend(x, y) == IF cfg.blend = 0 THEN x ELSE (x + y) \div 2
Step(d) ==
  /\ pc = "decide" /\ ~ Converged
  /\ IF cfg.con THEN eqpsi' = eqpsi + d * Unit ELSE d = 0 /\ eqpsi' = eqpsi
  /\ psi' = Blend(eqpsi', last)
  /\ it' = it + 1
  /\ IF cfg.maxits # 0 /\ it + 1 > cfg.maxits
     THEN pc' = "done" /\ outcome' = "too many"
     ELSE pc' = "ready" /\ outcome' = outcome
  /\ UNCHANGED <<cfg, last, bnd, bchg, ebnd, lim, everlim, checking, nrec>>

Init == \E c \in Configs, a \in Amps, b \in Bnds, l0 \in BOOLEAN : Start(c, a, b, l0)
Next == \/ \E d \in Adjs : Constrain0(d)
        \/ \E a \in Amps, b \in Bnds, li \in BOOLEAN : Solve(a, b, li)
        \/ Return
        \/ \E d \in Adjs \cup {0} : Step(d)
Spec == Init /\ [][Next]_pvars /\ WF_pvars(Next)

(* ------------------------------ properties ------------------------------- *)
\* success is only reported when flux and boundary both settled
ConvergedMeansConverged ==
  outcome = "converged" => PsiConverged /\ BndConverged
\* waiting for a limited plasma is honoured
WaitHonoured == (outcome = "converged" /\ cfg.wait) => lim
\* the work done is bounded by the limit, and failure means it was used up
Bounded == cfg.maxits # 0 => nrec <= cfg.maxits + 1
FailureMeansExhausted == outcome = "too many" => (cfg.maxits # 0 /\ nrec = cfg.maxits + 1)
\* limiter checking is gated, and sticks once a limited plasma was seen
CheckGated == checking => cfg.chk
Sticky == [][(pc = "ready" /\ pc' = "decide" /\ cfg.chk /\ everlim) => checking']_pvars
\* after success the equilibrium is the one of the last solve: no later adjustment
NoAdjustAfterSuccess == [][pc' = "done" /\ outcome' = "converged" => eqpsi' = eqpsi]_pvars
\* with a limit on iterations the loop always ends
Terminates == (cfg.maxits # 0) ~> (pc = "done")
=============================================================================
