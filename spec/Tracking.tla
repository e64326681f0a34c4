------------------------------- MODULE Tracking -------------------------------
(***************************************************************************)
(* The closed loop of the low-level control: a vehicle that keeps its      *)
(* targets, on a straight lane or a circular one.  r: offset from the      *)
(* centre of the target lane (1e-5 m), h: heading relative to the lane     *)
(* (1e-6), v: speed (1e-5 m/s), x: place along the lane (1e-5 m); sf:      *)
(* frames per second; bend: signed radius of the lane (1e-5 m, positive    *)
(* when its inside is on the side of positive offsets), 0 if it is straight*)
(***************************************************************************)
EXTENDS Steering
RECURSIVE Root(_, _, _)
\* integer square root of n, from a guess g
Root(n, g, k) == IF k = 0 THEN g ELSE Root(n, (g + n \div g) \div 2, k - 1)
\* arcsine of x (1e-6), |x| <= sin(pi/4): Newton's iterations
RECURSIVE Newton(_, _, _)
Newton(x, y, k) == IF k = 0 THEN y ELSE Newton(x, y - Scaled(Sin(y) - x, Cos(y), 6), k - 1)
ArcSin(x) == Newton(x, x + Mul6(x, Mul6(x, x)) \div 6, 2)
Quarter == 785398
SinQuarter == 707107
SinMaxSteering == 866025
\* the wanted heading, relative to the lane
HeadingFor(r, v) == LET x == ClippedRatio(-((5 * r) \div 3), NotZero(v, 1000))
                    IN IF x >= SinQuarter THEN Quarter ELSE IF x <= -SinQuarter THEN -Quarter ELSE ArcSin(x)
\* the lane turns by this much in a tenth of a second
Ahead(v, bend) == IF bend = 0 THEN 0 ELSE IF bend > 0 THEN Scaled(v, bend, 5) ELSE -Scaled(v, -bend, 5)
\* the sine of the steering angle
SineOfSteering(r, h, v, bend) == LET rate == 5 * Wrap(Ahead(v, bend) + HeadingFor(r, v) - h)
                                 IN Clip(ClippedRatio((5 * rate) \div 2, NotZero(v, 1000) * 10), -SinMaxSteering, SinMaxSteering)
\* sines and cosines (1e-6) of the slip angle beta = arctan(tan(steering) / 2)
Slip(s) == LET q == s \div 100                                                    \* 1e-4
               d == Root(400000000 - 3 * q * q, 15000, 5)
               c == Root(100000000 - q * q, 9000, 5)
           IN [sin |-> Scaled(s, d, 4), cos |-> Scaled(2 * c, d, 6)]
Around(a, sf) == IF a >= 0 THEN (a + sf \div 2) \div sf ELSE -((-a + sf \div 2) \div sf)
\* a frame's way (dx along the tangent of the lane, dr to its side) in the coordinates of the lane; turn: of the lane
Way(s, dx, dr, bend) ==
    IF bend = 0 THEN [x |-> dx, r |-> dr, turn |-> 0]
    ELSE LET D == Sgn(bend)
             a == Abs(bend) - D * s.r - D * dr                       \* distance to the centre, before moving along the tangent
             q == IF dx >= 0 THEN Scaled(dx, a, 6) ELSE -Scaled(-dx, a, 6)
             out == Mul6(dx, q) \div 2 - Mul6(Mul6(dx, q), Mul6(q, q)) \div 8
             phi == q - Mul6(q, Mul6(q, q)) \div 3 + Mul6(q, Mul6(Mul6(q, q), Mul6(q, q))) \div 5
         IN [x |-> Mul6(Abs(bend), phi), r |-> dr - D * out, turn |-> D * phi]
Frame(s, target, sf, bend) ==
    LET b == Slip(SineOfSteering(s.r, s.h, s.v, bend))
        sn == Sin(s.h)  cs == Cos(s.h)
        sin == Mul6(sn, b.cos) + Mul6(cs, b.sin)
        cos == Mul6(cs, b.cos) - Mul6(sn, b.sin)
        w == Way(s, Around(Mul6(s.v, cos), sf), Around(Mul6(s.v, sin), sf), bend)
    IN [x |-> s.x + w.x, r |-> s.r + w.r,
        h |-> Wrap(s.h + Around(4 * Mul6(s.v, b.sin), sf) - w.turn),
        v |-> s.v + Around(((target - s.v) * 5) \div 3, sf)]
RECURSIVE Run(_, _, _, _, _)
Run(s, target, sf, bend, n) == IF n = 0 THEN s ELSE Run(Frame(s, target, sf, bend), target, sf, bend, n - 1)
\* offset of the steady motion around a circle, 0.6 v sin((2.5 - 0.3 v - v / (2 sf)) / R), to the first order
Lead(v, sf) == 250000 - (3 * v) \div 10 - v \div (2 * sf)
Steady(v, bend, sf) == IF bend = 0 THEN 0 ELSE Sgn(bend) * Sgn(Lead(v, sf)) * Mul6((6 * v) \div 10, Scaled(Abs(Lead(v, sf)), Abs(bend), 6))
Settled(s, target, bend, sf) == /\ Near(s.r, Steady(target, bend, sf), 2000 + Abs(Steady(target, bend, sf)) \div 8)
                                /\ Abs(s.h) <= 5000 + (IF bend = 0 THEN 0 ELSE Scaled(350000, Abs(bend), 6))
                                /\ Abs(s.v - target) <= 5000
===============================================================================
