----------------------------- MODULE MCPopulation -----------------------------
(***************************************************************************)
(* One arm and its exit, in cells of five meters: vehicles enter at cell 1 *)
(* when there is room, advance by at most two cells a step without passing *)
(* each other, and leave near the end.                                     *)
(***************************************************************************)
EXTENDS Population
CONSTANT Length
VARIABLES cars, p                    \* cells, the last one first to enter; whether a spawn is asked for
At(c) == <<c * 5000, 0>>
Init == cars = << >> /\ p \in BOOLEAN
Advance(c, d) == [i \in 1..Len(c) |-> c[i] + d[i]]
Valid(c) == \A i \in 1..(Len(c) - 1) : c[i] > c[i + 1]
Stay(c) == SelectSeq(c, LAMBDA x : ~Leaves([agent |-> FALSE, noroute |-> FALSE, exit |-> TRUE, s |-> x * 5000, length |-> Length * 5000]))
Spawned(c, ask) == IF ask /\ Free(At(1), {At(c[i]) : i \in DOMAIN c}, Room) # "no" THEN Append(c, 1) ELSE c
Next == \E d \in [1..Len(cars) -> 0..2] : LET c == Stay(Advance(cars, d)) IN
            Valid(c) /\ cars' = Spawned(c, p) /\ p' \in BOOLEAN
Spec == Init /\ [][Next]_<<cars, p>>
Ordered == Valid(cars)
Spaced == Len(cars) >= 2 /\ cars[Len(cars)] = 1 => cars[Len(cars) - 1] >= 4
Gone == \A i \in DOMAIN cars : cars[i] * 5000 < Length * 5000 - LeaveBefore
=============================================================================
