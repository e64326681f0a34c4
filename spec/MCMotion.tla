------------------------------- MODULE MCMotion -------------------------------
(* The speed of a vehicle under any sequence of accelerations, crashing at any time (0.1 m/s, so M = 10 here). *)
EXTENDS Motion
Top == 400
Sf == 5
Acc == {-60, -10, 0, 50, 60}
Start == {-400, 0, 240}
VARIABLES v, crashed, prev
Init == v \in Start /\ crashed = FALSE /\ prev = v
Move == \E a \in Acc : v' = v + Gain(Applied(v, a, crashed, Top), Sf) /\ prev' = v /\ UNCHANGED crashed
Crash == ~crashed /\ crashed' = TRUE /\ prev' = v /\ UNCHANGED v
Next == Move \/ Crash
Spec == Init /\ [][Next]_<<v, crashed, prev>>
AMax == SetMax({Abs(a) : a \in Acc})
\* never further beyond the maximum than one frame of acceleration, and then never faster
Limited == (Start \subseteq -Top..Top) => Abs(v) <= Top + AMax \div Sf + 1
Back == (Abs(prev) > Top => Abs(v) <= Abs(prev) + 1)
\* crashed vehicles slow down and never change direction (but for rounding)
Stops == crashed => Abs(v) <= Abs(prev) + 1 /\ (prev > 1 => v >= 0) /\ (prev < -1 => v <= 0)
=============================================================================
