-------------------------------- MODULE Motion --------------------------------
(***************************************************************************)
(* One frame of motion.  Units: positions 0.01 mm, speeds 0.01 mm/s and    *)
(* accelerations 0.01 mm/s^2 (metre = 100000), angles 1e-6 rad, directions *)
(* 1e-4; the frame lasts 1/sf s.  The directions and angles of the slip    *)
(* (cosine and sine of heading + slip, sine of slip) come with the event.  *)
(***************************************************************************)
EXTENDS Arith
M == 100000
\* the acceleration really applied: crashed vehicles brake in proportion of their speed, whatever was asked; beyond the
\* maximum speed, vehicles are brought back to it at the same rate
Applied(v, acc, crashed, max) ==
    LET a == IF crashed THEN -v ELSE acc
    IN IF v > max THEN Min(a, max - v) ELSE IF v < -max THEN Max(a, -max - v) ELSE a
Steering(steer, crashed) == IF crashed THEN 0 ELSE steer
\* displacement along a direction d (1e-4) at speed v during a frame
Along(v, d, sf) == MulDiv(v, d, 10000) \div sf
\* rotation during a frame: v sin(slip) / half length (2.5 m), in 1e-6 rad
Turn(v, sb, sf) == (MulDiv(v, sb, 10000) * 4) \div sf
Gain(a, sf) == a \div sf
\* ---- dynamical bicycle: lateral accelerations (0.01 mm/s^2 and 1e-5 rad/s^2); tf, tr: slips of tires in 1e-5 rad, d: steering
\* friction 15 N/rad on each of two tires per axle, mass 1 kg, inertia 37/12 kg m^2, half length 2.5 m
Lateral(v, vl, yaw, d, tf, tr) ==
    LET front == IF Abs(v) < M THEN -vl - MulDiv(yaw, 37, 30) ELSE 30 * (d - tf)     \* 37/12 / 2.5 = 37/30
        rear  == IF Abs(v) < M THEN -vl + MulDiv(yaw, 37, 30) ELSE 30 * (-tr)
    IN [dlat |-> front + rear - MulDiv(yaw, v \div 100, 1000), dyaw |-> ((front - rear) * 30) \div 37]
=============================================================================
