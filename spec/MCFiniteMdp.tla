------------------------------ MODULE MCFiniteMdp ------------------------------
(* Design model: all histories in a grid of 3 speeds, 3 lanes and 4 times: time passes at every step, the horizon is reached whatever is done, a lane is left
   by at most one at a time, the speed chosen at first is kept. *)
EXTENDS FiniteMdp
VARIABLES c, first
Sh == <<3, 3, 4>>
Init == c \in {x \in Cells(Sh) : x[3] = 0} /\ first = c
Next == \E a \in 0..4 : c[3] < Sh[3] - 1 /\ c' = Successor(Sh, c, a) /\ UNCHANGED first
Spec == Init /\ [][Next]_<<c, first>> /\ WF_<<c, first>>(Next)
InGrid == c \in Cells(Sh) /\ Cell(Sh, Flat(Sh, c)) = c /\ Flat(Sh, c) \in 0..Size(Sh) - 1
OneSpeedChange == Abs(c[1] - first[1]) <= 1
LaneReach == Abs(c[2] - first[2]) <= c[3]
Moves == [][c'[3] = c[3] + 1 /\ Abs(c'[2] - c[2]) <= 1 /\ (c[3] > 0 => c'[1] = c[1])]_<<c, first>>
Ends == <>Terminal(Sh, c, 0)
=============================================================================
