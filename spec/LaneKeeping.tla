------------------------------ MODULE LaneKeeping ------------------------------
(***************************************************************************)
(* The lane keeping task: a bicycle vehicle follows lane 1, a straight     *)
(* line, and once it has left it, lane 2, a sine, for ever.  Places in     *)
(* 0.01 mm, angles in 1e-6 rad.                                            *)
(***************************************************************************)
EXTENDS Trig
D1x == 880471                               \* direction of lane 1: from (50, 50) to (115, 15), 73.824 m
D1y == -474100
Length(l) == IF l = 1 THEN 7382412 ELSE 50000000
HalfWidth == 500000
VehicleLength == 500000
\* the sine of amplitude 5 m and period 100 m: angle at x
Phase(x) == Mul6(x, 628319)
Coordinates(l, x, y) ==
    IF l = 1 THEN LET dx == x - 5000000  dy == y - 5000000 IN [s |-> Mul6(dx, D1x) + Mul6(dy, D1y), r |-> Mul6(dy, D1x) - Mul6(dx, D1y)]
    ELSE [s |-> x, r |-> y - Mul6(500000, Sin(Phase(x)))]
On(l, x, y) == LET c == Coordinates(l, x, y) IN Abs(c.r) <= HalfWidth /\ -VehicleLength <= c.s /\ c.s < Length(l) + VehicleLength
\* too close to the border of the lane to tell
AtBorder(l, x, y) == LET c == Coordinates(l, x, y) IN
    Near(Abs(c.r), HalfWidth, 200) \/ Near(c.s, -VehicleLength, 200) \/ Near(c.s, Length(l) + VehicleLength, 200)
\* before each action
Lane2(l, x, y) == IF l = 1 /\ ~On(1, x, y) THEN 2 ELSE l
\* is the angle psi that of the lane
Slope(x) == Mul6(314159, Cos(Phase(x)))
Follows(l, x, psi, tol) == IF l = 1 THEN Near(Wrap(psi + 494021), 0, tol)
                           ELSE Abs(psi) < 1000000 /\ Near(Mul6(Cos(psi), Slope(x)), Sin(psi), tol)
\* the place to be: same y, without the lateral distance; along the lane, without lateral speed and rotation
ReferenceY(l, x, y) == y - Coordinates(l, x, y).r
=============================================================================
