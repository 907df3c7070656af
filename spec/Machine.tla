------------------------------- MODULE Machine -------------------------------
(* The coil set of a tokamak: coils of every kind, circuits which drive       *)
(* several coils from one supply, and the control system's view of them.      *)
(*                                                                            *)
(* State, per element e of the machine (in machine order):                    *)
(*   cur[e]     current in the element (circuit current for a circuit)        *)
(*   ctl[e]     is the element under feedback control?                        *)
(*   trn[e][p]  turns of the p-th coil of the element                         *)
(*   pos[e][p]  <<r, z>> lattice position of that coil                        *)
(* A coil's own current is not a state variable: it is DEFINED to be the      *)
(* multiplier times the element current, after every history of operations.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS CurVals,      \* currents an operation may set (Amps)
          DeltaVals,    \* current changes the control system may ask for
          TurnVals,     \* numbers of turns
          LayoutIds     \* which layouts to explore

VARIABLES lay, cur, ctl, trn, pos
mvars == <<lay, cur, ctl, trn, pos>>

(* A part (one coil) has a kind, a multiplier in tenths, and the weights of   *)
(* its direct and mirrored (Z -> -Z) conductors.                              *)
Part(k, m10, w1, w2) == [k |-> k, m10 |-> m10, w1 |-> w1, w2 |-> w2]
One(k)        == [k |-> k, parts |-> <<Part(k, 10, 1, 0)>>]
Mir(k, a, b)  == [k |-> k, parts |-> <<Part(k, 10, a, b)>>]
Circ(ps)      == [k |-> "circuit", parts |-> ps]
P(k, m10)     == Part(k, m10, 1, 0)

AllLayouts == <<
  << One("coil"), One("shaped"), One("coil") >>,
  << One("filament"), Circ(<<P("coil", 20), P("coil", -10)>>), One("coil") >>,
  << One("solenoid"), One("coil"), Circ(<<P("shaped", 10), P("filament", 30)>>) >>,
  << One("multi1"), One("multilist"), Mir("multimir", 1, -1) >>,
  << [k |-> "mirsym",  parts |-> <<P("coil", 10), P("coil", 10)>>],
     [k |-> "miranti", parts |-> <<P("coil", 10), P("coil", -10)>>], One("coil") >>,
  << One("precalc"), One("coil"), Circ(<<P("coil", 0), P("coil", 15)>>) >>,
  << Circ(<<P("solenoid", 10), P("coil", 25)>>), One("filament"), Circ(<<P("coil", 10)>>), One("shaped") >>,
  << One("filament1"), Mir("multimir", 1, 1), Circ(<<P("coil", -20), P("coil", 5), P("shaped", 10)>>) >>,
  << One("coil"), Circ(<<P("coil", 20), P("shaped", -10)>>) >>,
  << Mir("multimir", 1, -1), One("solenoid"), One("multilist") >>
>>

Layout == AllLayouts[lay]
Elements == 1..Len(Layout)
Parts(e) == 1..Len(Layout[e].parts)

Movable(k)   == k \notin {"precalc"}
TurnsFixed(k) == k \in {"multilist"}

(* ------------------------------- derived --------------------------------- *)
\* ten times the current carried by coil p of element e: the circuit law
PartCurrent10(e, p) == Layout[e].parts[p].m10 * cur[e]
\* the ampere-turns (times 100) of the direct and the mirrored conductor of a coil
Src100(e, p)  == 10 * PartCurrent10(e, p) * trn[e][p] * Layout[e].parts[p].w1
SrcM100(e, p) == 10 * PartCurrent10(e, p) * trn[e][p] * Layout[e].parts[p].w2
\* ampere-turns per Ampere of element current (times 10)
Unit10(e, p)  == Layout[e].parts[p].m10 * trn[e][p] * Layout[e].parts[p].w1
UnitM10(e, p) == Layout[e].parts[p].m10 * trn[e][p] * Layout[e].parts[p].w2

\* Controlled elements, in machine order
ControlSeq == SelectSeq([i \in Elements |-> i], LAMBDA e : ctl[e])
ControlCurrents == [i \in 1..Len(ControlSeq) |-> cur[ControlSeq[i]]]
\* position of e in the control vector (0 if it is not controlled)
CtlIndex(e) == IF ctl[e] THEN Cardinality({f \in Elements : f <= e /\ ctl[f]}) ELSE 0

(* ------------------------------- actions --------------------------------- *)
Build(l, c, t, b) ==
  /\ lay' = l
  /\ cur' = c /\ ctl' = b /\ trn' = t
  /\ pos' = [e \in 1..Len(AllLayouts[l]) |-> [p \in 1..Len(AllLayouts[l][e].parts) |-> <<0, 0>>]]

SetCurrent(e, v) == cur' = [cur EXCEPT ![e] = v] /\ UNCHANGED <<lay, ctl, trn, pos>>
SetControl(e, b) == ctl' = [ctl EXCEPT ![e] = b] /\ UNCHANGED <<lay, cur, trn, pos>>
SetTurns(e, p, n) == /\ ~ TurnsFixed(Layout[e].parts[p].k)
                     /\ trn' = [trn EXCEPT ![e][p] = n] /\ UNCHANGED <<lay, cur, ctl, pos>>
MoveR(e, p, r) == /\ Movable(Layout[e].parts[p].k)
                  /\ pos' = [pos EXCEPT ![e][p][1] = r] /\ UNCHANGED <<lay, cur, ctl, trn>>
MoveZ(e, p, z) == /\ Movable(Layout[e].parts[p].k)
                  /\ pos' = [pos EXCEPT ![e][p][2] = z] /\ UNCHANGED <<lay, cur, ctl, trn>>
\* the control system adds dI[i] to the i-th controlled element
ControlAdjust(dI) ==
  /\ Len(dI) = Len(ControlSeq)
  /\ cur' = [e \in Elements |-> IF ctl[e] THEN cur[e] + dI[CtlIndex(e)] ELSE cur[e]]
  /\ UNCHANGED <<lay, ctl, trn, pos>>
\* the control system sets the controlled elements' currents
SetControlCurrents(v) ==
  /\ Len(v) = Len(ControlSeq)
  /\ cur' = [e \in Elements |-> IF ctl[e] THEN v[CtlIndex(e)] ELSE cur[e]]
  /\ UNCHANGED <<lay, ctl, trn, pos>>
\* evaluating fields or responses anywhere changes nothing
Query == UNCHANGED mvars

Vec(S) == [1..Len(ControlSeq) -> S]

Init == \E l \in LayoutIds :
          LET L == AllLayouts[l] IN
          /\ lay = l
          /\ cur = [e \in 1..Len(L) |-> 0]
          /\ ctl = [e \in 1..Len(L) |-> TRUE]
          /\ trn = [e \in 1..Len(L) |-> [p \in 1..Len(L[e].parts) |->
                      IF TurnsFixed(L[e].parts[p].k) THEN 3 ELSE 1]]
          /\ pos = [e \in 1..Len(L) |-> [p \in 1..Len(L[e].parts) |-> <<0, 0>>]]

Next ==
  \/ \E e \in Elements, v \in CurVals : SetCurrent(e, v)
  \/ \E e \in Elements, b \in BOOLEAN : SetControl(e, b)
  \/ \E e \in Elements, n \in TurnVals : \E p \in Parts(e) : SetTurns(e, p, n)
  \/ \E e \in Elements, r \in {0, 1} : \E p \in Parts(e) : MoveR(e, p, r)
  \/ \E e \in Elements, z \in {0, 1} : \E p \in Parts(e) : MoveZ(e, p, z)
  \/ \E d \in Vec(DeltaVals) : ControlAdjust(d)
  \/ \E v \in Vec(CurVals) : SetControlCurrents(v)

Spec == Init /\ [][Next]_mvars

(* ------------------------------ properties ------------------------------- *)
TypeOK == /\ cur \in [Elements -> Int] /\ ctl \in [Elements -> BOOLEAN]
\* the control vector lists exactly the controlled elements, each once, in order
ControlVectorExact ==
  /\ Len(ControlSeq) = Cardinality({e \in Elements : ctl[e]})
  /\ \A i, j \in 1..Len(ControlSeq) : i < j => ControlSeq[i] < ControlSeq[j]
  /\ \A e \in Elements : ctl[e] => ControlSeq[CtlIndex(e)] = e
\* superposition: the field source is linear in every element current
Homogeneous == \A e \in Elements : \A p \in Parts(e) :
                 (cur[e] = 0) => (Src100(e, p) = 0 /\ SrcM100(e, p) = 0)
UnitResponse == \A e \in Elements : \A p \in Parts(e) :
                 /\ Src100(e, p) = 10 * Unit10(e, p) * cur[e]
                 /\ SrcM100(e, p) = 10 * UnitM10(e, p) * cur[e]
\* control actions never touch an uncontrolled element
UncontrolledFixed ==
  [][(\E d \in Vec(DeltaVals) : ControlAdjust(d)) \/ (\E v \in Vec(CurVals) : SetControlCurrents(v))
       => \A e \in Elements : ~ ctl[e] => cur'[e] = cur[e]]_mvars
\* an operation on one element leaves every other element's sources alone
Locality == [][\A e \in Elements : (\E v \in CurVals : SetCurrent(e, v)) =>
                 \A f \in Elements \ {e} : cur'[f] = cur[f] /\ trn'[f] = trn[f] /\ pos'[f] = pos[f]]_mvars
SmallCur == {-2, 0, 3}
SmallDelta == {1, -2}
BigCur == {-700, 0, 450, 900}
BigDelta == {130, 0, -250}
Bound == \A e \in Elements : cur[e] \in -4..4
\* at most one coil moved or rewound at a time
QuickBound == /\ \A e \in Elements : cur[e] \in -3..3
              /\ Cardinality({x \in Elements \X (1..3) : /\ x[2] \in Parts(x[1])
                                                      /\ \/ pos[x[1]][x[2]] # <<0, 0>>
                                                         \/ trn[x[1]][x[2]] = 2}) <= 1
=============================================================================
