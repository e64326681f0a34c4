------------------------------- MODULE Steering -------------------------------
(***************************************************************************)
(* Low-level control.  Speeds 1e-5 m/s, lateral offsets 1e-5 m, angles     *)
(* 1e-6 rad, accelerations 1e-4 m/s^2.                                     *)
(***************************************************************************)
EXTENDS Trig
NotZero(x, eps) == IF Abs(x) > eps THEN x ELSE IF x > 0 THEN eps ELSE -eps
\* proportional speed control, time constant 0.6 s
SpeedControl(v, target) == (target - v) \div 6
\* a / b clipped to [-1, 1], in 1e-6 (|a| < 2^31 / 10)
ClippedRatio(a, b) == IF Abs(a) >= Abs(b) THEN Sgn(a) * Sgn(b) * 1000000
                      ELSE IF b > 0 THEN Scaled(a, b, 6) ELSE Scaled(-a, -b, 6)
MaxSteering == 1047198                                    \* pi / 3
\* r: lateral offset, fh: heading of the lane a tenth of a second ahead, h, v: heading and speed, hc: angle claimed to be
\* the arcsine of the wanted lateral speed over the speed
HeadingCommand(v, r, hc) == Abs(hc) <= 1570797 /\
    LET x == ClippedRatio(-((5 * r) \div 3), NotZero(v, 1000)) IN Near(Sin(hc), x, 60) /\ (hc = 0 \/ Sgn(hc) = Sgn(x) \/ Abs(hc) < 60)
Wanted(fh, h, hc) == Wrap(fh + Clip(hc, -785398, 785398) - h)
\* st is the steering angle (meaningful from 1 m/s on)
SteeringIs(v, fh, h, hc, st) ==
    LET rate == 5 * Wanted(fh, h, hc)
        y == ClippedRatio((5 * rate) \div 2, NotZero(v, 1000) * 10)
    IN /\ Abs(st) <= MaxSteering + 1
       /\ IF Abs(y) > 866025 + 500 THEN Near(st, Sgn(y) * MaxSteering, 2)
          ELSE IF Abs(y) > 866025 - 500 THEN Near(Sin(st), Clip(y, -866025, 866025), 1000) ELSE Near(Sin(st), y, 450)
HalfTurn(fh, h, hc) == Abs(Wanted(fh, h, hc)) > 3141593 - 200
\* linear steering with parameters q1, q2 (1e-6), clipped
LinearSteering(v, r, fh, h, q1, q2) ==
    LET w == NotZero(v, 1000)
        f1 == Sgn(w) * Scaled(5 * Wrap(fh - h), Abs(w), 5)
        f2 == Scaled(Scaled(-5 * r, Abs(w), 6), Abs(w), 5)
    IN Clip(Mul6(f1, q1) + Mul6(f2, q2), -MaxSteering, MaxSteering)
=============================================================================
