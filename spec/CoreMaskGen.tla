----------------------------- MODULE CoreMaskGen -----------------------------
EXTENDS CoreMask, Json
CONSTANTS MaxX, Dense
VARIABLE k
\* random subsets: every cell in or out
RndSub == {c \in Cells : RandomElement(1..4) <= Dense}
GInit == /\ k = 0 /\ In = {} /\ start \in Cells /\ xs \in {{}} \cup {{c} : c \in Cells} \cup
              (IF MaxX > 1 THEN {{c, d} : c \in {x \in Cells : x[1] <= 2}, d \in Cells} ELSE {})
         /\ mask = {} /\ stack = {} /\ pc = "gen"
GPick == /\ k = 0 /\ k' = 1 /\ In' = {c \in Cells : RandomElement(1..(4 + k)) <= Dense} \cup {start}
         /\ UNCHANGED <<start, xs, mask, stack, pc>>
GOut == /\ k = 1 /\ k' = 2 /\ PrintT("@@" \o ToJson([nx |-> NX, ny |-> NY, inn |-> In, s |-> start, x |-> xs]))
        /\ UNCHANGED mvars
GSpec == GInit /\ [][GPick \/ GOut]_<<In, start, xs, mask, stack, pc, k>>
\* exhaustive: every pattern of a small mesh
AInit == Init /\ k = 1
ASpec == AInit /\ [][GOut]_<<In, start, xs, mask, stack, pc, k>>
=============================================================================
