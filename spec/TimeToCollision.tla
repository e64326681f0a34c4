---------------------------- MODULE TimeToCollision ----------------------------
(***************************************************************************)
(* The grid of predicted times to collision: one layer per speed of the    *)
(* observer, one row per lane of its road, one column per period.          *)
(* Units: mm, mm/s; probabilities in halves (0, 1, 2).                      *)
(* For every quantity the grid has a lower value Must and a higher value   *)
(* May; they differ only where measurement noise could change a column.    *)
(***************************************************************************)
EXTENDS RoadNet
\* collision points of a vehicle, <<offset, cost>>: its centre for certain, and where the bodies begin and cease to touch
\* when it is in front or behind (margin: half the lengths of the two vehicles)
Points(margin) == << <<0, 2>>, <<-margin, 1>>, <<margin, 1>> >>
\* lanes of the observer's road on which vehicle o may be met
LanesMet(net, me, route, o) ==
    IF ~Connected(net, me, o, route, FALSE, 3) THEN {}
    ELSE IF Lanes(net, o) = Lanes(net, me) THEN {o[3]} ELSE 0..(Lanes(net, me) - 1)
\* columns reached by a collision point at distance d with closing speed v, at pf columns per second: the times just
\* before and just after d / v; none when the point moves away
Exact(d, v, pf) == IF Sgn(v) * d < 0 THEN {} ELSE LET n == Abs(d) * pf IN {n \div Abs(v), -((-n) \div Abs(v))}
\* the same with d known to within 2 mm and v to within 1 mm/s, for speeds that differ by more than 15 mm/s:
\* the columns certainly and possibly reached
Columns(d, v, pf, H) ==
    LET a == Abs(v)  b == Sgn(v) * d
        lo == ((b - 2) * pf) \div (a + 1)  hi == ((b + 2) * pf) \div (a - 1)
        all == 0..(H - 1)
    IN IF b < -2 THEN [must |-> {}, may |-> {}]
       ELSE IF b <= 2 THEN [must |-> {}, may |-> all \cap 0..(hi + 1)]
       ELSE IF lo = hi THEN [must |-> {lo, lo + 1} \cap all, may |-> {lo, lo + 1} \cap all]
       ELSE [must |-> {}, may |-> (lo..(hi + 1)) \cap all]
Any(H) == [must |-> {}, may |-> 0..(H - 1)]
None == [must |-> {}, may |-> {}]
\* o = [d, margin, v, alike, met]: v is the speed of o projected on the direction of the observer, alike[i] tells whether its speed
\* is "equal" to the i-th speed of the observer (then nothing is predicted), almost ("near") or not ("no")
Hit(o, i, speed, k, pf, H) ==
    IF o.alike[i] = "equal" THEN None
    ELSE IF o.alike[i] = "near" \/ Near(speed, o.v, 15) THEN Any(H)
    ELSE Columns(o.d + Points(o.margin)[k][1], speed - o.v, pf, H)
\* <<lane, column, cost>> of the i-th layer
Marks(os, i, speed, pf, H, must) ==
    UNION {LET h == Hit(os[n], i, speed, k, pf, H)
           IN {<<l, c, Points(os[n].margin)[k][2]>> : l \in os[n].met, c \in IF must THEN h.must ELSE h.may}
           : n \in DOMAIN os, k \in 1..3}
Top(M, l, c) == LET T == {m[3] : m \in {x \in M : x[1] = l /\ x[2] = c}} IN IF T = {} THEN 0 ELSE SetMax(T)
\* the view of the observer on lane id, at the s-th speed: three speeds and three lanes around, all taken outside the road
Layer(nspeeds, s, v) == Clip(s + v - 2, 1, nspeeds)
OffRoad(nlanes, id, l) == id + l - 2 < 0 \/ id + l - 2 >= nlanes
=============================================================================
