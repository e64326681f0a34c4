------------------------------ MODULE MCTracking ------------------------------
(* The closed loop from a grid of offsets, headings and speeds, until it has settled: the speed never passes its target, the vehicle turns to its lane,
   passes its centre by at most a fraction of its offset, settles in a bounded time, and stays. *)
EXTENDS Tracking
CONSTANTS Frames, Horizon          \* frames per second; frames
VARIABLES s, s0, target, bend, n
vars == <<s, s0, target, bend, n>>
Speeds == {500000, 1000000, 2000000, 3000000}
Start == [x : {0}, r : {k * 200000 : k \in -4..4}, h : {-2500000, -1500000, -700000, -200000, 0, 300000, 1000000, 2000000}, v : Speeds]
Round == [x : {0}, r : {-200000, 0, 200000}, h : {-400000, 0, 300000}, v : {500000, 1000000, 1500000}]
Init == s = << >> /\ s0 = << >> /\ target = 0 /\ bend = 0 /\ n = -1
Begin == /\ n = -1 /\ n' = 0
         /\ \/ (s' \in Start /\ target' \in Speeds /\ bend' = 0)
            \/ (s' \in Round /\ target' \in {500000, 1000000, 1500000} /\ bend' \in {-3000000, 2000000, 6000000})
         /\ s0' = s'
Move == n \in 0..Horizon - 1 /\ s' = Frame(s, target, Frames, bend) /\ n' = n + 1 /\ UNCHANGED <<s0, target, bend>>
Next == Begin \/ Move
Spec == Init /\ [][Next]_vars
Going == n >= 0
SpeedBetween == Going => (s0.v <= target => s.v \in s0.v..target + 30) /\ (s0.v >= target => s.v \in target - 30..s0.v)
Aligned == Going /\ Abs(s0.h) <= 800000
\* from its lane's direction, the vehicle passes the other side by at most an eighth of its offset; it settles in 7 seconds, in 8.5 when it starts backwards
Overshoot == Going /\ s0.h = 0 /\ bend = 0 => (s0.r >= 0 => s.r >= -(s0.r \div 8) - 20000) /\ (s0.r <= 0 => s.r <= (-s0.r) \div 8 + 20000)
Settles == Going => (n >= (IF Aligned THEN 7 ELSE 8) * Frames + 7 => Settled(s, target, bend, Frames))
Forth == Aligned /\ n >= 1 => s.x > 0
\* curves of the networks are followed within 1.1 m once settled
OnCurve == bend # 0 /\ n >= 7 * Frames => Abs(s.r) <= 110000
==============================================================================
