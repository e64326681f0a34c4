------------------------------ MODULE MCBicycle ------------------------------
(* The linearised lateral dynamics of a bicycle vehicle at constant speed: whatever skid it starts from, it settles; turning, it settles on a curve, to the side
   of its wheels. *)
EXTENDS Motion
CONSTANT Frames                      \* per second
VARIABLES v, d, vl, yaw, n
Speeds == IF Frames < 30 THEN {830000, 1500000} ELSE {200000, 500000, 1500000}
Slip(w) == MulDiv(w, 10000, v \div 10)                \* 1e-5 rad
Init == /\ v \in Speeds /\ d \in {-5000, 0, 10000}
        /\ vl \in {-100000, 0, 50000} /\ yaw \in {-100000, 0, 30000} /\ n = 0
Step == LET a == Lateral(v, vl, yaw, d, Slip(vl + (5 * yaw) \div 2), Slip(vl - (5 * yaw) \div 2))
        IN /\ vl' = vl + Gain(a.dlat, Frames) /\ yaw' = yaw + Gain(a.dyaw, Frames) /\ n' = n + 1 /\ UNCHANGED <<v, d>>
Next == n < 200 /\ Step
Spec == Init /\ [][Next]_<<v, d, vl, yaw, n>>
Bounded == Abs(vl) < 10 * M /\ Abs(yaw) < 10 * M
\* rotating v d / L on the final curve, to the side of the wheels
Settled == n = 200 => Near(yaw, MulDiv(v, d, 500000), 600 + Abs(yaw) \div 50)
=============================================================================
