------------------------------- MODULE Reward -------------------------------
(***************************************************************************)
(* Documented composition of the rewards, in 1e-6 units.                   *)
(*   c: configuration (cr: collision reward and rlo, rhi: rewarded speed   *)
(*      range, all 1e-3), r: facts of the rewarded state, f: terminal      *)
(*      facts, a: the action (-1 if it is not a discrete meta-action).     *)
(* Speeds are in mm/s, positions in mm.                                    *)
(***************************************************************************)
EXTENDS Episode, Arith
One == 1000000
B(x) == IF x THEN 1 ELSE 0
\* linear map of x (1e-6) from [lo, hi] (1e-3) to [0, 1]
To01(x, lo, hi) == MulDiv(x - 1000 * lo, 1000, hi - lo)
SpeedScale(v, lo, hi) == ((Clip(v - lo, 0, hi - lo) * 50000) \div (hi - lo)) * 20
Share(i, n, w) == (w * i) \div Max(n - 1, 1)        \* w * i / (n - 1)

Highway(c, r, f) ==
    IF ~OnHighway(f, c) THEN 0
    ELSE To01(1000 * c.cr * B(f.crashed[1]) + Share(r.tlane, r.nlanes, 100000)
              + (SpeedScale(r.speed, c.rlo, c.rhi) * 2) \div 5,
              c.cr, 500)
\* the ramp: pairs <<target speed, speed>> of the controlled vehicles on the merging lane
RECURSIVE RampCost(_)
RampCost(p) == IF p = << >> THEN 0
               ELSE ((((Head(p)[1] - Head(p)[2]) * 20000) \div Head(p)[1]) * 25) + RampCost(Tail(p))
Merge(r, f, a) ==
    To01(-One * B(f.crashed[1]) + 100000 * r.lane + Share(r.sidx[1], r.scount[1], 200000) - RampCost(r.ramp)
         - 50000 * B(a \in {0, 2}), -1500, 300)
Roundabout(r, f, a) ==
    To01(-One * B(f.crashed[1]) + Share(r.sidx[1], r.scount[1], 200000) - 50000 * B(a \in {0, 2}), -1050, 200)
TwoWay(r) == Share(r.sidx[1], r.scount[1], 800000) + Share(r.nlanes - 1 - r.tlane, r.nlanes, 200000)
Agent(c, r, f, i) ==
    LET x == IF Arrived(f.agents[i]) THEN One
             ELSE 1000 * c.cr * B(f.crashed[i]) + One * B(r.sidx[i] = r.scount[i] - 1)
    IN IF c.norm THEN To01(x, c.cr, 1000) ELSE x
RECURSIVE SumAgents(_, _, _, _)
SumAgents(c, r, f, n) == IF n = 0 THEN 0 ELSE Agent(c, r, f, n) + SumAgents(c, r, f, n - 1)
Intersection(c, r, f) == SumAgents(c, r, f, Len(f.agents)) \div Len(f.agents)

\* goal-reaching: - sum over the agents of the square root of the weighted distance; bounds in 1e-4
RECURSIVE Isqrt(_, _, _)
Isqrt(x, lo, hi) == \* largest n in lo..hi with n * n <= x
    IF lo >= hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN Isqrt(x, m, hi) ELSE Isqrt(x, lo, m - 1)
Root(cost) == Isqrt(100 * Min(Max(cost, 0), 20000000), 0, 45000)
RECURSIVE RootSum(_, _)
RootSum(g, d) == IF g = << >> THEN 0 ELSE Root(GoalCost(Head(g)) + d) + RootSum(Tail(g), d)
GoalLow(f, hit) == -RootSum(f.goal, 20) - 2 * Len(f.goal) - 50000 * hit * Len(f.goal)
GoalHigh(f, hit) == -RootSum(f.goal, -20) + 2 - 50000 * hit * Len(f.goal)

\* lane keeping: 1 - (distance to the centre of the followed lane / lane width)^2, the width being 10 m
LaneKeeping(lat) == One - (lat * lat) \div 100
OnStraight(r) == Abs(r.lat_straight) <= 5000 /\ r.s_straight >= -5000 /\ r.s_straight < 78824
StraightEdge(r) == Abs(r.lat_straight) \in 4998..5002 \/ r.s_straight \in 78800..78850 \/ r.s_straight \in -5003..-4997
=============================================================================
