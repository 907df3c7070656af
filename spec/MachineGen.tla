----------------------------- MODULE MachineGen -----------------------------
(* Behaviours of Machine, written out for replay in the real code.           *)
EXTENDS Machine, Json
CONSTANT Depth
VARIABLE hist
gvars == <<lay, cur, ctl, trn, pos, hist>>

GInit ==
  \E l \in LayoutIds :
    LET L == AllLayouts[l] IN
    \E c \in [1..Len(L) -> CurVals], b \in [1..Len(L) -> BOOLEAN], n \in TurnVals :
      LET t == [e \in 1..Len(L) |-> [p \in 1..Len(L[e].parts) |->
                   IF TurnsFixed(L[e].parts[p].k) THEN 3 ELSE n]] IN
      /\ lay = l /\ cur = c /\ ctl = b /\ trn = t
      /\ pos = [e \in 1..Len(L) |-> [p \in 1..Len(L[e].parts) |-> <<0, 0>>]]
      /\ hist = << [op |-> "build", lay |-> l, L |-> L, cur |-> c, ctl |-> b, trn |-> t] >>

H(r) == hist' = Append(hist, r)
Field ==
  \/ \E e \in Elements, v \in CurVals : v # cur[e] /\ SetCurrent(e, v) /\ H([op |-> "setcur", e |-> e, v |-> v])
  \/ \E e \in Elements, n \in TurnVals : \E p \in Parts(e) :
        n # trn[e][p] /\ SetTurns(e, p, n) /\ H([op |-> "setturns", e |-> e, p |-> p, v |-> n])
  \/ \E e \in Elements : \E p \in Parts(e) :
        MoveR(e, p, 1 - pos[e][p][1]) /\ H([op |-> "mover", e |-> e, p |-> p, v |-> 1 - pos[e][p][1], via |-> RandomElement(0..(3 + 0 * Len(hist)))])
  \/ \E e \in Elements : \E p \in Parts(e) :
        MoveZ(e, p, 1 - pos[e][p][2]) /\ H([op |-> "movez", e |-> e, p |-> p, v |-> 1 - pos[e][p][2], via |-> RandomElement(0..(3 + 0 * Len(hist)))])
  \* a coil of a circuit is given a current of its own, then the circuit is set
  \/ \E e \in Elements, v \in CurVals : \E p \in Parts(e) :
        Len(Layout[e].parts) > 1 /\ SetCurrent(e, v) /\ H([op |-> "pokeset", e |-> e, p |-> p, v |-> v])
  \/ \E e \in Elements : \E p \in Parts(e) :
        Len(Layout[e].parts) > 1 /\ SetCurrent(e, cur[e]) /\ H([op |-> "pokeset", e |-> e, p |-> p, v |-> cur[e]])
Ctl ==
  \/ \E e \in Elements : SetControl(e, ~ ctl[e]) /\ H([op |-> "setctl", e |-> e, b |-> ~ ctl[e]])
  \/ \E d \in Vec(DeltaVals) : ControlAdjust(d) /\ H([op |-> "adjust", v |-> d])
  \/ \E v \in Vec(CurVals) : SetControlCurrents(v) /\ H([op |-> "setctlcur", v |-> v])
\* the behaviour is written out by the step after its last operation
Done == Len(hist) = Depth /\ PrintT("@@" \o ToJson(hist)) /\ H([op |-> "done"]) /\ UNCHANGED mvars
GNext == (Len(hist) < Depth /\ (Field \/ Ctl)) \/ Done
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
