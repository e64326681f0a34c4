------------------------------- MODULE Networks -------------------------------
(***************************************************************************)
(* The road networks of the tasks: for each, a sequence of lanes           *)
(*   [f, t, i: from, to, number; p: five places (mm) evenly spaced along   *)
(*    the centre; len (mm); w: width (mm); v: speed limit (m/s);           *)
(*    pr: priority; forb: closed to lane changes].                         *)
(***************************************************************************)
EXTENDS Trig, TLC
Lane(f, t, i, p, len, w, v, pr, forb) == [f |-> f, t |-> t, i |-> i, p |-> p, len |-> len, w |-> w, v |-> v, pr |-> pr, forb |-> forb]
Five(P(_)) == [k \in 1..5 |-> P(k - 1)]
Line(a, b) == Five(LAMBDA k : <<a[1] + ((b[1] - a[1]) * k) \div 4, a[2] + ((b[2] - a[2]) * k) \div 4>>)
\* arc of centre c and radius r (mm) from angle a to angle b (millionths of radians)
Arc(c, r, a, b) == Five(LAMBDA k : LET q == a + ((b - a) * k) \div 4 IN <<c[1] + Mul6(r, Cos(q)), c[2] + Mul6(r, Sin(q))>>)
ArcLength(r, a, b) == Mul6(r, Abs(b - a))
Deg(x) == (x * 3141593) \div 180
Straight(f, t, i, a, b, len) == Lane(f, t, i, Line(a, b), len, 4000, 20, 0, FALSE)
Turned(p) == <<-p[2], p[1]>>                  \* by a quarter turn
RECURSIVE Turn90(_, _)
Turn90(p, n) == IF n = 0 THEN p ELSE Turn90(Turned(p), n - 1)
Rotated(l, n) == [l EXCEPT !.p = [k \in 1..5 |-> Turn90(l.p[k], n)]]

Highway(n) == [i \in 1..n |-> Straight("0", "1", i - 1, <<0, 4000 * (i - 1)>>, <<10000000, 4000 * (i - 1)>>, 10000000)]
Row(f, t, x0, x1) == << Straight(f, t, 0, <<x0, 0>>, <<x1, 0>>, x1 - x0), Straight(f, t, 1, <<x0, 4000>>, <<x1, 4000>>, x1 - x0) >>
Merge == Row("a", "b", 0, 230000) \o Row("b", "c", 230000, 310000) \o Row("c", "d", 310000, 460000)
    \o << [Straight("b", "c", 2, <<230000, 8000>>, <<310000, 8000>>, 80000) EXCEPT !.forb = TRUE],
          [Straight("j", "k", 0, <<0, 14500>>, <<150000, 14500>>, 150000) EXCEPT !.forb = TRUE],
          \* half a period of a sine, 3.25 m on each side
          [Straight("k", "b", 0, <<150000, 0>>, <<230000, 0>>, 80000) EXCEPT !.forb = TRUE,
             !.p = Five(LAMBDA k : <<150000 + 20000 * k, 11250 + Mul6(3250, Sin(Deg(90 + 45 * k)))>>)] >>
TwoWay == Row("a", "b", 0, 800000) \o << Straight("b", "a", 0, <<800000, 0>>, <<0, 0>>, 800000) >>
Spots(y, v) == [k \in 1..15 |-> [Straight("a", "b", k - 1, <<4000 * k - 34000, y>>, <<4000 * k - 34000, y + 8000>>, 8000) EXCEPT !.v = v]]
            \o [k \in 1..15 |-> [Straight("b", "c", k - 1, <<4000 * k - 34000, -y>>, <<4000 * k - 34000, -y - 8000>>, 8000) EXCEPT !.v = v]]
Parking == Spots(10000, 20)
Summon == Spots(12000, 5) \o [k \in 1..5 |-> [Straight("d", "e", k - 1, <<-32000, 4000 * k - 12000>>, <<32000, 4000 * k - 12000>>, 64000) EXCEPT !.v = 5]]
Wide(l) == [l EXCEPT !.w = 10000]
LaneKeeping == << Wide(Lane("a", "b", 0, Five(LAMBDA k : <<125000 * k, <<0, 5000, 0, -5000, 0>>[k + 1]>>), 500000, 4000, 20, 0, FALSE)),
                  Wide(Straight("c", "d", 0, <<50000, 50000>>, <<115000, 15000>>, 73824)),
                  Wide(Straight("d", "a", 0, <<115000, 15000>>, <<135000, 4231>>, 22715)) >>
\* ---- the intersection: entrance c (0 south, 1 west, 2 north, 3 east) has priority P, its left turn P - 1
N(x, c) == x \o ToString(c % 4)
Entrance(c) == LET P == IF c % 2 = 1 THEN 3 ELSE 1
                   S(f, t, a, b, len, pr) == Lane(f, t, 0, Line(a, b), len, 4000, 10, pr, FALSE)
                   Q(f, t, arc, len, pr) == Lane(f, t, 0, arc, len, 4000, 10, pr, FALSE)
               IN [n5 \in 1..5 |-> Rotated(<<
    S(N("o", c), N("ir", c), <<2000, 111000>>, <<2000, 11000>>, 100000, P),
    Q(N("ir", c), N("il", c + 3), Arc(<<11000, 11000>>, 9000, Deg(180), Deg(270)), 14137, P),
    Q(N("ir", c), N("il", c + 1), Arc(<<-11000, 11000>>, 13000, 0, -Deg(90)), 20420, P - 1),
    S(N("ir", c), N("il", c + 2), <<2000, 11000>>, <<2000, -11000>>, 22000, P),
    S(N("il", c + 3), N("o", c + 3), <<11000, 2000>>, <<111000, 2000>>, 100000, P)>>[n5], c)]
Intersection == Entrance(0) \o Entrance(1) \o Entrance(2) \o Entrance(3)
\* ---- the roundabout: branches at quarter turns, traffic goes from each to the previous one
Branches == <<"s", "w", "n", "e">>
Branch(b) == LET d == Branches[b + 1]  m == Branches[((b + 3) % 4) + 1]
                 Ring(f, t, i, q0, q1) == Lane(f, t, i, Arc(<<0, 0>>, 20000 + 4000 * i, Deg(q0), Deg(q1)), ArcLength(20000 + 4000 * i, Deg(q0), Deg(q1)), 4000, 20, 0, FALSE)
             IN [n8 \in 1..8 |-> Rotated(<<
    Ring(d \o "e", m \o "x", 0, 66, 24), Ring(d \o "e", m \o "x", 1, 66, 24),
    Ring(d \o "x", d \o "e", 0, 114, 66), Ring(d \o "x", d \o "e", 1, 114, 66),
    Straight(d \o "er", d \o "es", 0, <<2000, 170000>>, <<2000, 42500>>, 127500),
    \* a fifth of a period (85 m) of a sine of 5 m, from its bottom
    Lane(d \o "es", d \o "e", 0, Five(LAMBDA k : <<7000 - Mul6(5000, Cos(Deg(18 * k))), 42500 - 4250 * k>>), 17000, 4000, 20, 0, FALSE),
    Lane(d \o "x", d \o "xs", 0, Five(LAMBDA k : <<-7000 + Mul6(5000, Cos(Deg(72 - 18 * k))), 25500 + 4250 * k>>), 17000, 4000, 20, 0, FALSE),
    Straight(d \o "xs", d \o "xr", 0, <<-2000, 42500>>, <<-2000, 170000>>, 127500)>>[n8], b)]
Roundabout == Branch(0) \o Branch(1) \o Branch(2) \o Branch(3)

Network(kind, lanes) ==
    CASE kind = "highway" -> Highway(lanes) [] kind = "merge" -> Merge [] kind = "two-way" -> TwoWay [] kind = "parking" -> Parking
      [] kind = "summon" -> Summon [] kind = "lane-keeping" -> LaneKeeping [] kind = "intersection" -> Intersection
      [] kind = "roundabout" -> Roundabout
Index(l) == <<l.f, l.t, l.i>>
SamePlace(p, q, tol) == Near(p[1], q[1], tol) /\ Near(p[2], q[2], tol)
SameLane(l, m) == /\ \A k \in 1..5 : SamePlace(l.p[k], m.p[k], 5)
                  /\ Near(l.len, m.len, 5) /\ l.w = m.w /\ l.v = m.v /\ l.pr = m.pr /\ l.forb = m.forb
=============================================================================
