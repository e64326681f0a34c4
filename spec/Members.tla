------------------------------- MODULE Members -------------------------------
(***************************************************************************)
(* A linear driver with uncertain parameters, on a straight lane.  A box   *)
(* [x, y, v, h] of intervals (mm, mm, mm/s, 1e-6 rad) bounds its state; a  *)
(* member is one possible driver: a state, parameters of acceleration (3)  *)
(* and steering (2) in 1e-4, and the state of the vehicle ahead.           *)
(*   d: [target (mm/s), gap (mm), time (ms), most (mm/s2), acc, steer:     *)
(*       boxes of parameters]; lane: [x, y, c, s (1e-6), h]                *)
(***************************************************************************)
EXTENDS Trig
Noise == 1000                                    \* mm/s, mm/s
Turned == 1000000                                \* 1e-6 rad/s
Hull(S) == <<SetMin(S), SetMax(S)>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Frame(q, n) == q \div n
In(z, q, tol) == q[1] - tol <= z /\ z <= q[2] + tol
Par(t, f) == MulDiv(f, t, 10000)                 \* a parameter times a feature
Lateral(l, x, y) == Mul6(y - l.y, l.c) - Mul6(x - l.x, l.s)
Along(l, x, y) == Mul6(x, l.c) + Mul6(y, l.s)
\* ---- the documented features of one member
Slowdown(m) == IF m.ahead THEN Min(m.front.v - m.v, 0) ELSE 0
Room(d, l, m) == IF m.ahead THEN Min(Along(l, m.front.x - m.x, m.front.y - m.y) - d.gap - MulDiv(m.v, d.time, 1000), 0) ELSE 0
Accel(d, l, m) == Clip(Par(m.acc[1], d.target - m.v) + Par(m.acc[2], Slowdown(m)) + Par(m.acc[3], Room(d, l, m)), -d.most, d.most)
TurnRate(d, l, m) == Par(m.steer[1], Wrap(l.h - m.h)) - Par(m.steer[2], Scaled(Lateral(l, m.x, m.y), m.v, 6))
\* the member after 1/n s
Next1(d, l, m, n) == [x |-> m.x + Frame(Mul6(Cos(m.h), m.v), n), y |-> m.y + Frame(Mul6(Sin(m.h), m.v), n),
                      v |-> m.v + Frame(Accel(d, l, m), n), h |-> m.h + Frame(TurnRate(d, l, m), n)]
\* ---- bounds of all members, by interval arithmetic
Times(t, f) == Hull({Par(t[i], f[j]) : i \in 1..2, j \in 1..2})
Has(q, a) == LET k == (q[1] - a) \div Turn IN \E i \in (k - 1)..(k + 2) : LET z == a + i * Turn + (i * 307) \div 1000 IN q[1] <= z /\ z <= q[2]
CosOf(q) == <<IF Has(q, Pi) THEN -1000000 ELSE Min(Cos(q[1]), Cos(q[2])), IF Has(q, 0) THEN 1000000 ELSE Max(Cos(q[1]), Cos(q[2]))>>
SinOf(q) == <<IF Has(q, -1570796) THEN -1000000 ELSE Min(Sin(q[1]), Sin(q[2])), IF Has(q, 1570796) THEN 1000000 ELSE Max(Sin(q[1]), Sin(q[2]))>>
Along2(v, dir) == Hull({Mul6(dir[i], v[j]) : i \in 1..2, j \in 1..2})
Neg(q) == <<Min(q[1], 0), Min(q[2], 0)>>
LateralOf(l, b) == Hull({Lateral(l, b.x[i], b.y[j]) : i \in 1..2, j \in 1..2})
GapOf(l, b, f) == Hull({Along(l, f.x[i] - b.x[3 - i], f.y[j] - b.y[3 - j]) : i \in 1..2, j \in 1..2})
AccelOf(d, l, b) ==
    LET t == Times(d.acc[1], <<d.target - b.v[2], d.target - b.v[1]>>)
        s == IF b.ahead THEN Times(d.acc[2], Neg(<<b.front.v[1] - b.v[2], b.front.v[2] - b.v[1]>>)) ELSE <<0, 0>>
        g == GapOf(l, b, b.front)
        r == IF b.ahead THEN Times(d.acc[3], Neg(<<g[1] - d.gap - MulDiv(b.v[2], d.time, 1000), g[2] - d.gap - MulDiv(b.v[1], d.time, 1000)>>)) ELSE <<0, 0>>
        a == Add(t, Add(s, r))
    IN <<Clip(a[1], -d.most, d.most), Clip(a[2], -d.most, d.most)>>
\* the heading returns to that of the lane: the bounds move with the slowest and fastest return
Return(k, q) == CASE q[1] >= 0 -> <<-Par(k[2], q[1]), -Par(k[1], q[2])>> [] q[2] <= 0 -> <<-Par(k[1], q[1]), -Par(k[2], q[2])>>
                  [] OTHER -> <<-Par(k[1], q[1]), -Par(k[1], q[2])>>
TurnOf(d, l, b) ==
    LET e == LateralOf(l, b)
        z == Hull({Scaled(-e[i], b.v[j], 6) : i \in 1..2, j \in 1..2})
    IN Add(Return(d.steer[1], <<Wrap(b.h[1] - l.h), Wrap(b.h[2] - l.h)>>), Times(d.steer[2], z))
\* the box after 1/n s
Box1(d, l, b, n) ==
    LET vx == Along2(b.v, CosOf(b.h))  vy == Along2(b.v, SinOf(b.h))  a == AccelOf(d, l, b)  w == TurnOf(d, l, b)
        grow(q, r, e) == <<q[1] + Frame(r[1] - e, n), q[2] + Frame(r[2] + e, n)>>
    IN [x |-> grow(b.x, vx, Noise), y |-> grow(b.y, vy, Noise), v |-> grow(b.v, a, 0), h |-> grow(b.h, w, Turned)]
Same(q, r, tol) == Near(q[1], r[1], tol) /\ Near(q[2], r[2], tol)
\* ---- the bounds that can be predicted on a lane: x along it, z across (1e-4), v, psi relative to the lane (1e-4) of a driver who neither turns nor changes lane;
\* front: the vehicle ahead, supposed to have the same target; slows: it is slower
Predicted(d, m, s, w, n) ==
    [x |-> s.x + Frame(s.v + w.x, n), f |-> s.f + Frame(s.fv, n),
     v |-> s.v + Frame(Par(m.acc[1], d.target - s.v) + (IF m.slows THEN Par(m.acc[2], s.fv - s.v) ELSE 0), n), fv |-> s.fv + Frame(Par(m.acc[1], d.target - s.fv), n),
     z |-> s.z + Frame(s.p + w.z, n), p |-> s.p + Frame(-Par(m.steer[1], s.p) - Par(m.steer[2], s.z), n)]
\* ---- worst-case collisions: with the place of the box that is nearest
Nearest(p, q) == Clip(p, q[1], q[2])
\* ---- lanes that may be followed
Followed(mode, squeeze, id, count, right) ==
    CASE mode = "model" -> <<id>>
      [] mode = "all" -> (IF id > 0 THEN <<id - 1>> ELSE << >>) \o (IF id < count - 1 THEN <<id + 1>> ELSE << >>) \o <<id>>
      [] OTHER -> IF id < count - 1 /\ right THEN <<id, id + 1>> ELSE IF squeeze THEN <<id>> ELSE <<id, id>>
=============================================================================
