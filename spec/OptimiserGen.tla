---------------------------- MODULE OptimiserGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, pc
GInit == c = <<>> /\ pc = 0
GNext == /\ pc = 0 /\ pc' = 1
         /\ LET k == [N |-> RandomElement({4, 5, 7, 4 + pc - pc}), maxgen |-> RandomElement({0, 1, 3, 8 + pc}),
                      F10 |-> RandomElement({0, 5, 10, 20 + pc}), cross |-> RandomElement(IF pc = 0 THEN {"never", "half", "always"} ELSE {}),
                      nc |-> RandomElement(1..(3 + pc)), start |-> RandomElement(1..(4 + pc)), land |-> RandomElement(1..(5 + pc)),
                      lim |-> RandomElement(0..(2 + pc)), rnd |-> RandomElement(1..(9 + pc)), touch |-> RandomElement(IF pc = 0 THEN BOOLEAN ELSE {})]
            IN c' = k /\ PrintT("@@" \o ToJson(k))
GSpec == GInit /\ [][GNext]_<<c, pc>>
=============================================================================
