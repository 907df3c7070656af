--------------------------- MODULE FieldLineTrace ----------------------------
(* Recorded traces.  Lengths are in units of 0.1 mm.  Every follow event has  *)
(* one record per line: off the angle (steps) from its start at which it      *)
(* began, hit whether the exact line meets the wall or edge on the way, and   *)
(* how far the points are from the exact ones.                                *)
EXTENDS FieldLine, TraceKit
VARIABLES l, at          \* at[i]: angle of line i from its start, stopped lines marked
tv == <<flv, l, at>>
E == Trace[l + 1]
Is(x) == l < Len(Trace) /\ E.ev = x /\ l' = l + 1
Stopped == 1000000
NL(e) == 1..Len(e.lines)
Line(e, x) ==
  { <<"C21:StartsAtTheStart", x.start <= 1>>,
    <<"C21:LineIsTheFieldLine", x.err <= x.tol>>,
    <<"C21:StaysOnItsFluxSurface", x.flux <= 150>>,
    <<"C21:LengthIsArcLength", x.len <= x.tol + 5>>,
    <<"C21:LengthNeverShrinks", x.mono>>,
    <<"C21:WindsOncePerSafetyFactor", x.wind <= 20000>>,
    <<"C21:StopsAtTheWall", x.hit => x.stop <= 2000>>,
    <<"C21:NeverBeyondTheWall", x.beyond <= 50>>,
    <<"C21:StoppedLinesStay", x.moved = 0>>,
    <<"C21:OpenOnlyIfItMeetsTheWall", (~x.hit /\ ~x.near /\ ~x.out) => x.full>>,
    <<"C21:OutsideNothingMoves", x.out => x.gone = 0>> }
Follows(e) ==
  { <<"C21:ShapeOfAnglesAndStarts", e.shape>>, <<"C21:InputsNotModified", e.same>> }
  \cup UNION { Line(e, e.lines[i]) : i \in NL(e) }
  \cup { <<"C21:GoingBackReturns", \A i \in NL(e) : (e.at[i] = 0 /\ at[i] # Stopped) => e.lines[i].home <= 3 * e.lines[i].tol>> }
Step(e, i) == IF at[i] = Stopped \/ e.lines[i].hit \/ e.lines[i].near \/ e.lines[i].out THEN Stopped
              ELSE IF e.back THEN at[i] - e.n ELSE at[i] + e.n
TMake == Is("make") /\ at' = [i \in 1..E.k |-> 0] /\ UNCHANGED flv
TFollow == /\ Is("follow")
           /\ at' = [i \in NL(E) |-> Step(E, i)]
           /\ Report(l + 1, Failing(Follows(E) \cup { <<"C21:AngleFollowed", \A i \in NL(E) : at'[i] = Stopped \/ at'[i] = E.at[i]>> }))
           /\ UNCHANGED flv
TRestart == Is("restart") /\ at' = [i \in 1..Len(at) |-> 0] /\ UNCHANGED flv
Sol(e) == { <<"C21:SolLinesStartOutsideTheBoundary", e.start <= 10>>, <<"C21:SolShape", e.shape>>,
            <<"C21:SolForwardAndBackward", e.fwd <= 20 /\ e.bwd <= 20>>, <<"C21:SolStops", e.stop <= 2000>>, <<"C21:InputsNotModified", e.same>> }
TSol == Is("sol") /\ Report(l + 1, Failing(Sol(E))) /\ UNCHANGED <<flv, at>>
TCrash == Is("crash") /\ Report(l + 1, {"NoUnexpectedException"}) /\ UNCHANGED <<flv, at>>
TInit == l = 0 /\ at = <<>> /\ offset = 0 /\ total = 0 /\ lo = 0 /\ hi = 0
TNext == TMake \/ TFollow \/ TRestart \/ TSol \/ TCrash
TraceSpec == TInit /\ [][TNext]_tv
=============================================================================
