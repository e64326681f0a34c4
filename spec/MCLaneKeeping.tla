---------------------------- MODULE MCLaneKeeping ----------------------------
(* A car driven anywhere (steps of 5 m, on a grid around both lanes). *)
EXTENDS LaneKeeping
VARIABLES lane, x, y, left
Places == {k * 500000 : k \in -2..30}
Heights == {k * 500000 : k \in -3..13}
Init == lane = 1 /\ x \in {5000000, 7500000} /\ y \in {4500000, 5000000} /\ left = FALSE
Next == /\ \E dx \in {-500000, 0, 500000}, dy \in {-500000, 0, 500000} : x + dx \in Places /\ y + dy \in Heights /\ x' = x + dx /\ y' = y + dy
        /\ lane' = Lane2(lane, x, y)
        /\ left' = (left \/ ~On(1, x, y))
Spec == Init /\ [][Next]_<<lane, x, y, left>>
Once == lane = 2 <=> left                                  \* the first exit decides, for ever
Foot == LET r == Coordinates(2, x, y).r IN ReferenceY(2, x, y) = y - r /\ Near(Coordinates(2, x, ReferenceY(2, x, y)).r, 0, 5)
\* coordinates of lane 1 keep distances
Isometry == LET c == Coordinates(1, x, y)  n(a, b) == (a \div 10000) * (a \div 10000) + (b \div 10000) * (b \div 10000)
            IN Abs(n(c.s, c.r) - n(x - 5000000, y - 5000000)) <= 4000
Range1 == On(1, x, y) => x > 3500000 /\ x < 13500000
=============================================================================
