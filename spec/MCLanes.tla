------------------------------- MODULE MCLanes -------------------------------
(* The formulas are consistent with each other: lanes have unit speed along their tangent, lateral offsets are to the *)
(* right of it, and local coordinates are unique.                                                                   *)
EXTENDS Lanes
VARIABLES lane, s, r
S(dx, dy) == [type |-> "straight", x |-> 1000, y |-> -2000, length |-> 50000, width |-> 4000, forbidden |-> FALSE, dx |-> dx, dy |-> dy]
W(dx, dy, ph) == [type |-> "sine", x |-> 1000, y |-> -2000, length |-> 50000, width |-> 4000, forbidden |-> FALSE, dx |-> dx, dy |-> dy,
                  amp |-> 5000, puls |-> 73919883, phase |-> ph]
O(sg, ph) == [type |-> "circle", x |-> 1000, y |-> -2000, length |-> 50000, width |-> 4000, forbidden |-> FALSE, radius |-> 20000, sign |-> sg,
              phase |-> ph]
Lanes == {S(1000000, 0), S(600000, 800000), S(0, -1000000), W(1000000, 0, 0), W(-800000, 600000, 1570796), O(1, 0), O(-1, 2000000)}
Init == lane \in Lanes /\ s \in {-3000, 0, 7777, 25000, 50000} /\ r \in {-4000, 0, 3500}
Next == UNCHANGED <<lane, s, r>>
Spec == Init /\ [][Next]_<<lane, s, r>>
P(x, y) == Position(lane, x, y)
\* over a quarter of a meter, the motion follows the tangent in the middle; the norm is one meter per meter of centre line, but on sine lanes
Moves == LET a == P(s - 125, 0)  b == P(s + 125, 0)  t == Tangent(lane, s)
         IN Near(b[1] - a[1], t[1] \div 4000, 6) /\ Near(b[2] - a[2], t[2] \div 4000, 6)
\* a positive lateral coordinate is a rotation of the direction by +90 degrees (except for the shear of sine lanes)
Side == LET a == P(s, 0)  b == P(s, 1000)  t == Tangent(lane, s)  d == <<b[1] - a[1], b[2] - a[2]>>
        IN Mul6(t[1], d[2] * 1000) - Mul6(t[2], d[1] * 1000) > 990000
Unique == \A ds \in {0, 500, -500}, dr \in {0, 500, -500} : Local(lane, s + ds, r + dr, P(s, r)) <=> ds = 0 /\ dr = 0
Unit == Near(Mul6(Sin(s * 37), Sin(s * 37)) + Mul6(Cos(s * 37), Cos(s * 37)), 1000000, 20)
=============================================================================
