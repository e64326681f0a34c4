-------------------------------- MODULE Scenes --------------------------------
(***************************************************************************)
(* First scenes of the tasks.  Places in mm, directions in 1e-6, speeds in *)
(* mm/s.  A slot of a scene: [x, y, dx, dy (direction, <<0, 0>>: any),     *)
(* v (speed), sx, sy (largest deviations), sv, what (class), ...].         *)
(***************************************************************************)
EXTENDS Trig
One == 1000000
\* 1e6 exp(-n / 6)
Crowd == <<846482, 716531, 606531, 513417, 434598, 367879, 311403, 263597>>
\* usual distance in front of the vehicles of a road of n lanes at speed v (mm/s), spacing in thousandths
Offset(v, n, spacing) == (Mul6((3 * v) \div 2, Crowd[n]) * spacing) \div 1000
GapIn(gap, v, n, spacing, tol) == LET o == Offset(v, n, spacing) IN (9 * (o \div 10)) - tol <= gap /\ gap <= (11 * (o \div 10)) + 11 + tol
\* ---- slots
S(what, x, y, sx, sy, dx, dy, v, sv) == [what |-> what, x |-> x, y |-> y, sx |-> sx, sy |-> sy, dx |-> dx, dy |-> dy, v |-> v, sv |-> sv]
Fills(v, s) == /\ v.what = s.what /\ Near(v.x, s.x, s.sx + 1) /\ Near(v.y, s.y, s.sy + 1) /\ Near(v.v, s.v, s.sv)
               /\ (s.dx = 0 /\ s.dy = 0) \/ (Near(v.dx, s.dx, 20) /\ Near(v.dy, s.dy, 20))
\* vehicles fill the slots one to one
Bijections(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
RECURSIVE Matched(_, _)
Matched(vs, slots) == IF slots = << >> THEN vs = {}
    ELSE \E v \in vs : Fills(v, Head(slots)) /\ Matched(vs \ {v}, Tail(slots))
\* all deviations drawn are z standard deviations (0 or 1), on either side
Off(x, m, sd, tol) == Near(Abs(x - m), sd, tol)
FillsAt(v, s, z) == /\ v.what = s.what /\ Off(v.x, s.x, (z * s.sx) \div 6, 2) /\ Off(v.y, s.y, (z * s.sy) \div 6, 2) /\ Off(v.v, s.v, (z * s.sv) \div 6, 1)
                    /\ (s.dx = 0 /\ s.dy = 0) \/ (Near(v.dx, s.dx, 20) /\ Near(v.dy, s.dy, 20))
RECURSIVE MatchedAt(_, _, _)
MatchedAt(vs, slots, z) == IF slots = << >> THEN vs = {}
    ELSE \E v \in vs : FillsAt(v, Head(slots), z) /\ MatchedAt(vs \ {v}, Tail(slots), z)
Merge == <<S("agent", 30000, 4000, 0, 0, One, 0, 30000, 0), S("driver", 90000, 0, 0, 0, One, 0, 29000, 0), S("driver", 70000, 4000, 0, 0, One, 0, 31000, 0),
           S("driver", 5000, 0, 0, 0, One, 0, 31500, 0), S("driver", 110000, 14500, 0, 0, One, 0, 20000, 0)>>
TwoWay == <<S("agent", 30000, 4000, 0, 0, One, 0, 30000, 0)>>
          \o [i \in 1..3 |-> S("driver", 30000 + 40000 * i, 4000, 60000, 0, One, 0, 24000, 12000)]
          \o [i \in 1..2 |-> S("driver", 700000 - 100000 * i, 0, 60000, 0, -One, 0, 20000, 30000)]
\* vehicles of the ring are told by their coordinates along it (mm): lane "in" of radius 20 m, "out" of radius 24 m, from the west entrance
Roundabout == <<S("agent", 2000, 45000, 0, 0, 0, -One, 8000, 0), S("driver", 120000, -2000, 12000, 0, -One, 0, 16000, 12000)>>
Ring == <<[radius |-> 24000, s |-> 5000], [radius |-> 20000, s |-> 20000], [radius |-> 20000, s |-> -20000]>>
OnRing(v, r) == LET a == 2722714 - Scaled(r.s, r.radius, 6)      \* 156 degrees
                    lo == Scaled(12000, r.radius, 6)
                IN /\ v.what = "driver" /\ Near(v.v, 16000, 12000)
                   /\ \E k \in -100..100 : LET b == a + (lo * k) \div 100 IN
                        Near(v.x, Mul6(r.radius, Cos(b)), r.radius \div 180) /\ Near(v.y, Mul6(r.radius, Sin(b)), r.radius \div 180)
                   /\ Near(Mul6(v.dx, r.radius), v.y, 3) /\ Near(Mul6(v.dy, r.radius), -v.x, 3)
RECURSIVE RingMatched(_, _)
RingMatched(vs, slots) == IF slots = << >> THEN vs = {}
    ELSE \E v \in vs : OnRing(v, Head(slots)) /\ RingMatched(vs \ {v}, Tail(slots))
OnMean(v, r, z) == /\ Off(v.v, 16000, 2000 * z, 1)
                   /\ \E side \in {-1, 1} : LET a == 2722714 - Scaled(r.s + side * 2000 * z, r.radius, 6) IN
                        Near(v.x, Mul6(r.radius, Cos(a)), 3) /\ Near(v.y, Mul6(r.radius, Sin(a)), 3)
RECURSIVE RingAt(_, _, _)
RingAt(vs, slots, z) == IF slots = << >> THEN vs = {} ELSE \E v \in vs : OnMean(v, Head(slots), z) /\ RingAt(vs \ {v}, Tail(slots), z)
Destinations == {"exr", "sxr", "nxr"}
\* parking lots: 15 spots on either side of the aisle, 4 m wide and 8 m long, beginning at y = +-side
SpotX(k) == 4000 * (k - 7) - 2000
IsSpot(p, side) == \E k \in 0..14 : Near(p.x, SpotX(k), 1) /\ Near(Abs(p.y), side + 4000, 1)
Outwards(p) == Near(p.dx, 0, 20) /\ Near(p.dy, Sgn(p.y) * One, 20)
SummonGoal(g) == Near(Abs(g.x), 40000, 1) /\ Near(g.y, 0, 1) /\ Near(g.dx, One, 20)
\* vehicle number i (from 0) of a busy lot is parked or drives along the aisle
Parked(v, i) == v.what = "plain" /\ v.v = 0 /\ Near(v.x, SpotX(i), 1) /\ Near(Abs(v.y), 16000, 1) /\ Outwards(v)
Drives(v, i) == v.what = "driver" /\ v.v = 2000 /\ v.y \in {-8000, -4000, 0, 4000, 8000}
                /\ Near(v.dx, One, 20) /\ \E k \in {0, 4000} : Near(v.x, -32000 + 5000 * i + k, 1)
=============================================================================
