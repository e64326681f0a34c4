------------------------------- MODULE MCFollow -------------------------------
(***************************************************************************)
(* An IDM driver behind a leader who, every two seconds, decides to brake, *)
(* cruise or speed up.  Integrated at 10 Hz; distances between centres.    *)
(* Starting at the desired gap or beyond, the follower never reaches the   *)
(* leader (five meters between centres).                                   *)
(***************************************************************************)
EXTENDS Drivers
CONSTANT Horizon            \* frames
VARIABLES gap, v, vl, al, t
P == [model |-> "idm", comfort |-> 30000, brake0 |-> 50000, sq |-> 38730, accmax |-> 60000, gain |-> 2000, unsafe |-> 20000,
      d0 |-> 100000, tau |-> 1500, polite |-> 0, delay |-> 1000000, k1 |-> 0, k2 |-> 0, k3 |-> 0, q1 |-> 0, q2 |-> 0]
Car(sp, ts) == [kind |-> "controlled", v |-> sp, vx |-> sp, vy |-> 0, dx |-> 1000000, dy |-> 0, ts |-> ts, lane |-> "", target |-> ""]
Accs == {-50000, 0, 30000}
Init == /\ v \in {500000, 1500000, 2500000, 3000000} /\ vl \in {0, 1000000, 2000000, 3000000} /\ al \in Accs /\ t = 0
        /\ gap \in {x + DesiredGap(P, Car(v, 3000000), Car(vl, 3000000)) : x \in {0, 100000, 400000}} /\ gap > 60000
Next == /\ t < Horizon /\ t' = t + 1
        /\ al' \in (IF t' % 20 = 0 THEN Accs ELSE {al})
        /\ LET a == Clip(Acceleration(P, Car(v, 3000000), Car(vl, 3000000), gap).a, -60000, 60000)
           IN v' = v + a
        /\ vl' = Clip(vl + al, 0, 3000000)
        /\ gap' = gap + (vl - v) \div 100
Spec == Init /\ [][Next]_<<gap, v, vl, al, t>>
NoCollision == gap > 50000
Slow == v <= 3000000 + 1000
=============================================================================
