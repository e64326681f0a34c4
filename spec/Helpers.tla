-------------------------------- MODULE Helpers --------------------------------
(***************************************************************************)
(* Points in rectangles and ellipses, directions, and ranges of numbers.   *)
(* A direction is <<c, s, h>>, of cosine c/h and sine s/h (Pythagorean).   *)
(***************************************************************************)
EXTENDS Arith
Direction(r) == r[1] * r[1] + r[2] * r[2] = r[3] * r[3] /\ r[3] > 0
\* h times the coordinates of a point from the centre, along the direction and to its side
Along(p, r) == r[1] * p[1] + r[2] * p[2]
Across(p, r) == r[1] * p[2] - r[2] * p[1]
\* both ends included
InBox(p, low, high) == low[1] <= p[1] /\ p[1] <= high[1] /\ low[2] <= p[2] /\ p[2] <= high[2]
\* p: from the centre
InRectangle(p, r, length, width) == 2 * Abs(Along(p, r)) <= r[3] * length /\ 2 * Abs(Across(p, r)) <= r[3] * width
OnRectangle(p, r, length, width) == InRectangle(p, r, length, width) /\ (2 * Abs(Along(p, r)) = r[3] * length \/ 2 * Abs(Across(p, r)) = r[3] * width)
\* its axes from the centre to its ends, its border not included
Quadratic(p, r, a, b) == Along(p, r) * Along(p, r) * b * b + Across(p, r) * Across(p, r) * a * a
Bound(r, a, b) == r[3] * r[3] * a * a * b * b
InEllipse(p, r, a, b) == Quadratic(p, r, a, b) < Bound(r, a, b)
OnEllipse(p, r, a, b) == Quadratic(p, r, a, b) = Bound(r, a, b)
\* an angle in 24ths of a turn, from minus half a turn to half a turn
Wrap(k) == ((k + 12) % 24) - 12
\* got is the image of v by the linear map of the range x to the range y
Maps(v, x, y, got, unit, tol) == Near(got * (x[2] - x[1]), unit * (y[1] * (x[2] - x[1]) + (v - x[1]) * (y[2] - y[1])), tol)
\* away from zero by eps, on the same side
NotZero(x, eps) == IF Abs(x) > eps THEN {x} ELSE IF x > 0 THEN {eps} ELSE IF x < 0 THEN {-eps} ELSE {eps, -eps}
=============================================================================
