------------------------------ MODULE PicardGen ------------------------------
(* Scripted environments for the Picard loop, written out for replay.         *)
EXTENDS Picard, Json
VARIABLE hist
gvars == <<cfg, pc, it, eqpsi, psi, last, bnd, bchg, ebnd, lim, everlim, checking, outcome, nrec, hist>>
H(r) == hist' = Append(hist, r)

AllConfigs == [rtol : {3, 157}, atol : {0, 2560}, blend : {0, 1}, maxits : {0, 1, 2, 4},
               con : BOOLEAN, chk : BOOLEAN, wait : BOOLEAN, lit : {0, 2}, ub : {NoBnd, 3}]
\* without an iteration limit the script must be able to stop the loop
GInit == \E c \in AllConfigs, a \in Amps, b \in Bnds, l0 \in BOOLEAN :
            Start(c, a, b, l0) /\ hist = <<[op |-> "start", c |-> c, a |-> a, b |-> b, l0 |-> l0]>>
GSolve == \E a \in Amps, b \in Bnds, li \in BOOLEAN :
            Solve(a, b, li) /\ H([op |-> "solve", a |-> a, b |-> b, li |-> li])
\* repeating the previous answer is what convergence looks like: favour it
GRepeat == \E li \in BOOLEAN : nrec > 0 /\ eqpsi % Unit = 0 /\ ebnd # NoBnd
            /\ Solve(eqpsi \div Unit, ebnd, li) /\ H([op |-> "solve", a |-> eqpsi \div Unit, b |-> ebnd, li |-> li])
GCon0 == \E d \in Adjs : Constrain0(d) /\ H([op |-> "con", d |-> d])
GStep == \E d \in Adjs \cup {0} : Step(d) /\ H([op |-> "step", d |-> d])
GRet == Return /\ hist' = hist
Done == pc = "done" /\ PrintT("@@" \o ToJson(Append(hist, [op |-> outcome])))
        /\ pc' = "printed" /\ UNCHANGED <<cfg, it, eqpsi, psi, last, bnd, bchg, ebnd, lim, everlim, checking, outcome, nrec, hist>>
GNext == GSolve \/ GRepeat \/ GCon0 \/ GStep \/ GRet \/ Done
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
