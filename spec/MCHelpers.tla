------------------------------- MODULE MCHelpers -------------------------------
(* Laws of the helpers: what is inside turns with the shape, ellipses fill rectangles between their diamonds and their boxes, angles wrap to their likes. *)
EXTENDS Helpers
CONSTANT N
VARIABLES p, r, a, b
Directions == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<3, 4, 5>>, <<4, -3, 5>>, <<-5, 12, 13>>, <<-8, -15, 17>>}
Init == r \in Directions /\ a \in 1..4 /\ b \in 1..3 /\ p = << >>
Next == p = << >> /\ p' \in (-N..N) \X (-N..N) /\ UNCHANGED <<r, a, b>>
Spec == Init /\ [][Next]_<<p, r, a, b>>
Point == p # << >>
Opposite == <<-r[1], -r[2], r[3]>>
Quarter == <<-r[2], r[1], r[3]>>
Units == Direction(r) /\ Direction(Opposite) /\ Direction(Quarter)
\* turned by half a turn it is the same; by a quarter, with the sides exchanged
Turns == Point => /\ InRectangle(p, r, a, b) = InRectangle(p, Opposite, a, b)
                  /\ InRectangle(p, r, a, b) = InRectangle(p, Quarter, b, a)
                  /\ InEllipse(p, r, a, b) = InEllipse(p, Opposite, a, b)
                  /\ InEllipse(p, r, a, b) = InEllipse(p, Quarter, b, a)
\* the box of an ellipse, and the diamond of its axes
Between == Point => /\ (InEllipse(p, r, a, b) => InRectangle(p, r, 2 * a, 2 * b))
                    /\ (b * Abs(Along(p, r)) + a * Abs(Across(p, r)) < r[3] * a * b => InEllipse(p, r, a, b))
\* a disc is that of its radius whatever its direction
Disc == Point /\ a = b => InEllipse(p, r, a, b) = (p[1] * p[1] + p[2] * p[2] < a * a)
Straight == Point /\ r = <<1, 0, 1>> => InRectangle(p, r, 2 * a, 2 * b) = InBox(p, <<-a, -b>>, <<a, b>>)
Wraps == Point => LET k == 7 * p[1] + p[2] IN Wrap(k) \in -12..11 /\ (Wrap(k) - k) % 24 = 0 /\ Wrap(Wrap(k)) = Wrap(k)
Away == Point => \A z \in NotZero(p[1], a) : Abs(z) >= a /\ z * p[1] >= 0 /\ NotZero(z, a) = {z}
\* the map of a range to another one takes its ends to the ends, and is undone by that of the other to the one
Mapped == Point /\ a # b => Maps(a, <<a, b>>, <<p[1], p[2]>>, p[1], 1, 0) /\ Maps(b, <<a, b>>, <<p[1], p[2]>>, p[2], 1, 0)
                            /\ (p[1] # p[2] => \A v, z \in -3..3 : Maps(v, <<a, b>>, <<p[1], p[2]>>, z, 1, 0) => Maps(z, <<p[1], p[2]>>, <<a, b>>, v, 1, 0))
=============================================================================
