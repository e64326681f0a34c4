-------------------------------- MODULE Lanes --------------------------------
(***************************************************************************)
(* Geometry of lanes.  Lengths in mm, angles in microradians, directions   *)
(* in 1e-6.  A lane:                                                       *)
(*   [type, x, y, length, width, forbidden, ...]                           *)
(*   straight and sine: dx, dy; sine: amp, puls (1e-9 rad/m), phase        *)
(*   circle: centre x, y, radius, sign (1: increasing angle), phase        *)
(***************************************************************************)
EXTENDS Trig
Phase(l, s) == IF l.type = "circle" THEN l.phase + Scaled(l.sign * s, l.radius, 6) ELSE l.phase + Mul6(s, l.puls)
Slope(l, s) == Mul6(Mul6(l.amp, l.puls), Cos(Phase(l, s)))          \* of the centre of a sine lane
Position(l, s, r) ==
    CASE l.type = "circle" -> LET rho == l.radius - l.sign * r  p == Phase(l, s)
                              IN <<l.x + Mul6(rho, Cos(p)), l.y + Mul6(rho, Sin(p))>>
      [] OTHER -> LET q == IF l.type = "sine" THEN r + Mul6(l.amp, Sin(Phase(l, s))) ELSE r
                  IN <<l.x + Mul6(s, l.dx) - Mul6(q, l.dy), l.y + Mul6(s, l.dy) + Mul6(q, l.dx)>>
\* a vector along the lane (its norm is at least 1e6)
Tangent(l, s) ==
    CASE l.type = "circle" -> LET p == Phase(l, s) IN <<-l.sign * Sin(p), l.sign * Cos(p)>>
      [] l.type = "sine" -> LET t == Slope(l, s) IN <<l.dx - Mul6(t, l.dy), l.dy + Mul6(t, l.dx)>>
      [] OTHER -> <<l.dx, l.dy>>
Cross(a, b) == Mul6(a[1], b[2]) - Mul6(a[2], b[1])
Dot(a, b) == Mul6(a[1], b[1]) + Mul6(a[2], b[2])
\* precision of directions: coordinates are rounded to the millimeter
TolH(l) == 40 + (IF l.type = "circle" THEN 4000000 \div l.radius ELSE IF l.type = "sine" THEN 100 ELSE 0)
Along(l, s, h) == LET t == Tangent(l, s) IN Near(Cross(t, h), 0, TolH(l)) /\ Dot(t, h) > 900000
\* precision of the fixed point at s
Tol(l, s) == 8 + Abs(s) \div 500000 + (IF l.type = "circle" THEN l.radius \div 100000 ELSE 0)
At(l, s, r, p) == LET q == Position(l, s, r)
                      t == Tol(l, s) + (IF l.type = "circle" THEN (5 * Abs(r)) \div l.radius ELSE 0)
                  IN Near(q[1], p[1], t) /\ Near(q[2], p[2], t)
\* (s, r) are the local coordinates of p (which exist, and are unique but on the opposite of the centre of a circle)
Local(l, s, r, p) == At(l, s, r, p)
    /\ (l.type = "circle" => l.radius - l.sign * r >= -1 /\ Abs(s) <= Mul6(l.radius, Pi) + 2)
Inside(s, lo, hi) == lo <= s /\ s < hi
Overshoot(l, s) == Max(s - l.length, 0) + Max(-s, 0)
Distance(l, s, r) == Abs(r) + Overshoot(l, s)
OnLane(l, s, r, margin) == 2 * Abs(r) <= l.width + 2 * margin /\ Inside(s, -5000, l.length + 5000)
Reachable(l, s, r) == ~l.forbidden /\ Abs(r) <= 2 * l.width /\ Inside(s, 0, l.length + 5000)
AfterEnd(l, s) == s > l.length - 2500
\* a place within 3 mm of which an answer changes
Edge(l, s, r, margin) == Near(2 * Abs(r), l.width + 2 * margin, 6) \/ Near(Abs(r), 2 * l.width, 3)
    \/ \E b \in {-5000, 0, l.length - 2500, l.length + 5000} : Near(s, b, 3)
\* a is the angle between the lane at s and direction h; n: norm of the tangent
Between(l, s, n, h, a) == LET t == Tangent(l, s) IN
    /\ Near(Mul6(n, n), Dot(t, t), TolH(l)) /\ a \in 0..(Pi + 1)
    /\ Near(Mul6(n, Cos(a)), Dot(t, h), TolH(l)) /\ Near(Mul6(n, Sin(a)), Abs(Cross(t, h)), TolH(l))
\* along a route, a sequence of lanes: the lane and the coordinate reached
RECURSIVE AlongRoute(_, _)
AlongRoute(route, s) == IF Len(route) > 1 /\ s > route[1].length THEN AlongRoute(Tail(route), s - route[1].length)
                        ELSE [lane |-> route[1], s |-> s]
=============================================================================
