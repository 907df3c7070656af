------------------------------- MODULE Control -------------------------------
(* The coil current control system.  Running it changes the currents of the   *)
(* controlled elements so that the constraints (linear in the currents) are   *)
(* met as well as possible within the limits, with the smallest change.       *)
(*   cur[i]  current of element i          ctl[i]  controlled?                *)
(*   pl      contribution of the plasma to what the constraints look at       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Vals, MaxC
VARIABLES cur, ctl, pl
cvars == <<cur, ctl, pl>>
Els == 1..N
AbsC(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumOf(_, _)
SumOf(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumOf(f, k - 1)
SumAbs(c, flags) == SumOf([i \in 1..Len(c) |-> IF flags[i] THEN AbsC(c[i]) ELSE 0], Len(c))

\* response of the small model: two constraints on three elements
Resp == <<<<1, 1, 0>>, <<0, 1, -1>>>>
Targets == {<<1>>, <<1, -1>>, <<0, 1>>}
Limits == {"none", "tight"}
Lo(l) == IF l = "none" THEN -MaxC ELSE -1
Hi(l) == IF l = "none" THEN MaxC ELSE 1
Res(c, p, t) == SumOf([k \in 1..Len(t) |-> LET v == SumOf([i \in Els |-> Resp[k][i] * c[i]], N) + p - t[k] IN v * v], Len(t))
Size(c, d) == SumOf([i \in Els |-> (d[i] - c[i]) * (d[i] - c[i])], N)
\* candidates: uncontrolled elements as they are, controlled ones within limits
Cand(l) == {c \in [Els -> (-MaxC)..MaxC] : \A i \in Els : IF ctl[i] THEN c[i] \in Lo(l)..Hi(l) ELSE c[i] = cur[i]}
Cost(c, t) == 1000 * Res(c, pl, t) + Size(cur, c)
Best(l, t) == LET S == Cand(l)
                  V == {Cost(c, t) : c \in S}
                  v == CHOOSE x \in V : \A y \in V : x <= y
              IN {c \in S : Cost(c, t) = v}

SetCur(i, v) == cur' = [cur EXCEPT ![i] = v] /\ UNCHANGED <<ctl, pl>>
SetCtl(i, b) == ctl' = [ctl EXCEPT ![i] = b] /\ UNCHANGED <<cur, pl>>
SetPlasma(p) == pl' = p /\ UNCHANGED <<cur, ctl>>
Run(l, t) == /\ IF \E i \in Els : ctl[i] THEN cur' \in Best(l, t) ELSE cur' = cur
             /\ UNCHANGED <<ctl, pl>>
Init == cur \in [Els -> Vals] /\ ctl \in [Els -> BOOLEAN] /\ pl \in {0, 1}
Next == \/ \E i \in Els, v \in Vals : SetCur(i, v)
        \/ \E i \in Els, b \in BOOLEAN : SetCtl(i, b)
        \/ \E p \in {0, 1} : SetPlasma(p)
        \/ \E l \in Limits, t \in Targets : Run(l, t)
Spec == Init /\ [][Next]_cvars
SmallVals == {0, 1}
(* ------------------------------ properties ------------------------------- *)
UncontrolledUntouched == [][(ctl' = ctl /\ \E l \in Limits, t \in Targets : Run(l, t)) =>
                            (\E j \in Els : SetCur(j, cur'[j]) ) \/ \A i \in Els : ~ctl[i] => cur'[i] = cur[i]]_cvars
\* a second run changes nothing
Settled == \A l \in Limits, t \in Targets : \A c \in Best(l, t) :
             \A d \in Cand(l) : 1000 * Res(c, pl, t) <= 1000 * Res(d, pl, t) + Size(c, d)
\* with two controlled elements that span them, constraints are met exactly
Solvable == \A t \in Targets : (ctl[1] /\ ctl[3] /\ \A i \in Els : cur[i] \in -1..1) =>
              \A c \in Best("none", t) : Res(c, pl, t) = 0
=============================================================================
