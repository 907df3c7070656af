--------------------------- MODULE MultigridTrace ----------------------------
EXTENDS Multigrid, TraceKit
VARIABLE l
E == Trace[l + 1]
Is(x) == l < Len(Trace) /\ E.ev = x /\ l' = l + 1
Idx(n) == 0..(n)
Transfer(e) ==
  LET rx == NX(e.fine) \div 2 ry == NY(e.fine) \div 2
      cx == 2 * NX(e.coarse) cy == 2 * NY(e.coarse)
  IN { <<"C17:RestrictionHalvesTheGrid", NX(e.r) = rx /\ NY(e.r) = ry>>,
       <<"C17:RestrictionAveragesNeighbours", (NX(e.r) = rx /\ NY(e.r) = ry) =>
            \A i \in 1..(rx - 1), j \in 1..(ry - 1) : At(e.r, i, j) = Restrict16(e.fine, i, j)>>,
       <<"C17:SumIsFourTimesTheAverage", (NX(e.s) = rx /\ NY(e.s) = ry) =>
            \A i \in 1..(rx - 1), j \in 1..(ry - 1) : At(e.s, i, j) = 4 * Restrict16(e.fine, i, j)>>,
       <<"C17:NoErrorOnTheEdge", \A i \in Idx(NX(e.r)), j \in Idx(NY(e.r)) : (i \in {0, NX(e.r)} \/ j \in {0, NY(e.r)}) => At(e.r, i, j) = 0>>,
       <<"C17:InterpolationDoublesTheGrid", NX(e.p) = cx /\ NY(e.p) = cy>>,
       <<"C17:InterpolationIsBilinear", (NX(e.p) = cx /\ NY(e.p) = cy) =>
            \A i \in Idx(cx), j \in Idx(cy) : At(e.p, i, j) = Interp4(e.coarse, i, j)>>,
       <<"C17:InputsNotModified", e.same>> }
Solve(e) ==
  { <<"C17:CyclesConverge", e.direct \/ e.err <= Bound(e.cycles)>>,
    <<"C17:DirectSolverSolves", e.direct => e.err <= 5>>,
    <<"C17:BoundaryValuesKept", e.edge <= 1>>,
    <<"C17:MoreCyclesAreNotWorse", e.more <= e.err + 50>>,
    <<"C17:InputsNotModified", e.same>>,
    <<"C17:ExactSolutionIsKept", e.fixed <= 5>> }
TTransfer == Is("transfer") /\ Report(l + 1, Failing(Transfer(E))) /\ UNCHANGED vars
TSolve == Is("solve") /\ Report(l + 1, Failing(Solve(E))) /\ UNCHANGED vars
TEq == Is("eq") /\ Report(l + 1, Failing({ <<"C17:EquilibriumAsWithDirectSolver", E.dpsi <= Bound(E.cycles) /\ E.dcur <= 1>>,
                                           <<"C17:SolverReplaced", E.used>> })) /\ UNCHANGED vars
TCrash == Is("crash") /\ Report(l + 1, {"NoUnexpectedException"}) /\ UNCHANGED vars
TInit == l = 0 /\ fine = <<>> /\ coarse = <<>>
TNext == TTransfer \/ TSolve \/ TEq \/ TCrash
TraceSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
