------------------------------- MODULE MCDrivers -------------------------------
(* The longitudinal models on a grid of speeds and gaps, and MOBIL decisions on small scenes. *)
EXTENDS Drivers
VARIABLES v, vf, ts, d
P(model) == [model |-> model, comfort |-> 30000, brake0 |-> 50000, sq |-> 38730, accmax |-> 60000, gain |-> 2000, unsafe |-> 20000,
             d0 |-> 100000, tau |-> 1500, polite |-> 0, delay |-> 1000000, k1 |-> 300000, k2 |-> 300000, k3 |-> 2000000, q1 |-> 0, q2 |-> 0]
Car(sp, t) == [kind |-> "controlled", v |-> sp, vx |-> sp, vy |-> 0, dx |-> 1000000, dy |-> 0, ts |-> t, lane |-> "", target |-> ""]
Speeds == {0, 200000, 1000000, 2000000, 2500000, 3000000}
Gaps == {60000, 100000, 200000, 400000, 1000000, 2000000}
Init == v \in Speeds /\ vf \in Speeds /\ ts \in {1000000, 2000000, 3000000} /\ d \in Gaps
Next == UNCHANGED <<v, vf, ts, d>>
Spec == Init /\ [][Next]_<<v, vf, ts, d>>
A(m, sp, f, t, g) == Acceleration(P(m), Car(sp, t), Car(f, t), g)
Free(m, sp, t) == Acceleration(P(m), Car(sp, t), Nobody, 0)
Models == {"idm", "linear"}
\* alone on the road: towards the target speed; and a leader never makes anyone accelerate more
Alone == \A m \in Models : LET a == Free(m, v, ts) IN
            /\ v < ts => a.a > 0
            /\ v > ts => a.a < 0
            /\ v = ts => Abs(a.a) <= a.tol
Leader == \A m \in Models : A(m, v, vf, ts, d).a <= Free(m, v, ts).a
\* more room, or a faster leader, never makes a driver brake more (as long as a gap is wanted)
Monotone == \A m \in Models :
            /\ \A g \in Gaps : g >= d /\ DesiredGap(P(m), Car(v, ts), Car(vf, ts)) >= 0 => A(m, v, vf, ts, g).a >= A(m, v, vf, ts, d).a - 2
            /\ \A f \in Speeds : f >= vf /\ DesiredGap(P(m), Car(v, ts), Car(f, ts)) >= 0 => A(m, v, f, ts, d).a >= A(m, v, vf, ts, d).a - 2
\* nearer than the desired gap, the idm driver slows down when already at its target speed
Keeps == v >= ts /\ DesiredGap(P("idm"), Car(v, ts), Car(vf, ts)) >= d => A("idm", v, vf, ts, d).a < 0
\* a driver of speed v on the left lane behind a leader at distance d; the right lane has a follower of speed vf at distance -d or is empty
Scene(follower) ==
    [o |-> <<Car(v, ts), Car(1000000, ts)>> \o (IF follower THEN <<Car(vf, ts)>> ELSE << >>),
     d |-> <<<<0, d, -d>>, <<-d, 0, -2 * d>>, <<d, 2 * d, 0>>>>, p |-> P("idm"),
     lanes |-> << [name |-> "l", id |-> 0, length |-> 1000000, width |-> 4000, forbidden |-> FALSE,
                   c |-> << [s |-> 500000, r |-> 0], [s |-> 500000 + d \div 10, r |-> 0], [s |-> 500000 - d \div 10, r |-> 4000] >>],
                  [name |-> "r", id |-> 1, length |-> 1000000, width |-> 4000, forbidden |-> FALSE,
                   c |-> << [s |-> 500000, r |-> -4000], [s |-> 500000 + d \div 10, r |-> -4000], [s |-> 500000 - d \div 10, r |-> 0] >>] >>,
     pref |-> 0, crashed |-> FALSE, enabled |-> TRUE, sameroad |-> TRUE, timer |-> 2000000]
\* a change is made only when it neither forces the new follower to brake nor makes the driver slower
Changes == \A follower \in BOOLEAN : LET e == Scene(follower)  r == Recommended(e, e.lanes[2]) IN
            r = "yes" => /\ follower => A("idm", vf, v, ts, d).a >= -20000 - A("idm", vf, v, ts, d).tol
                         /\ Free("idm", v, ts).a > A("idm", v, 1000000, ts, d).a
\* and with an empty lane beside, a driver stuck behind a slow leader does change
Overtakes == LET e == Scene(FALSE) IN (v > 1000000 /\ ts > 1000000 /\ d <= 200000) => Recommended(e, e.lanes[2]) # "no"
=============================================================================
