---------------------------- MODULE MultigridGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, pc
GInit == c = <<>> /\ pc = 0
Arr(nx, ny) == [i \in 1..nx |-> [j \in 1..ny |-> RandomElement((-50)..(50 + pc))]]
GNext == /\ pc = 0 /\ pc' = 1
         /\ LET nx == RandomElement({3, 5, 7, 9 + pc}) ny == RandomElement({3, 5, 9, 13 + pc})
                k == [kind |-> RandomElement(IF pc = 0 THEN {"transfer", "solve", "solve", "op", "eq"} ELSE {}),
                      fine |-> Arr(nx, ny), coarse |-> Arr(RandomElement({2, 3, 4, 5 + pc}), RandomElement({3, 4, 6 + pc})),
                      n |-> <<RandomElement({17, 33, 65 + pc}), RandomElement({17, 33, 65 + pc})>>,
                      levels |-> RandomElement(1..(4 + pc)), cycles |-> RandomElement({1, 2, 3, 5 + pc}), sweeps |-> RandomElement({6, 10 + pc}),
                      guess |-> RandomElement(0..(3 + pc)), rhs |-> RandomElement(1..(4 + pc)), dom |-> RandomElement(1..(3 + pc)), scale |-> RandomElement({1, 1, 2, 3 + pc})]
            IN c' = k /\ PrintT("@@" \o ToJson(k))
GSpec == GInit /\ [][GNext]_<<c, pc>>
=============================================================================
