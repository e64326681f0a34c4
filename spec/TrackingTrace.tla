---------------------------- MODULE TrackingTrace ----------------------------
(* Recorded drives of vehicles under the low-level control, while they follow one lane: legs of some frames at one target speed. *)
EXTENDS Tracking, Verdict
VARIABLES l, st, bad, seen
\* the specified state after each leg; once the vehicle has slowed down below 2 m/s it is not steered in a specified way
RECURSIVE Drive(_, _, _)
Drive(s, e, i) == IF i > Len(e.legs) THEN << >>
                  ELSE LET t == Run(s, e.legs[i].target, e.sf, e.bend, e.legs[i].n) IN <<t>> \o Drive(t, e, i + 1)
Slow(e, i) == \E j \in 0..i : (IF j = 0 THEN e.start.v ELSE e.legs[j].after.v) < 200000
RECURSIVE Frames(_, _)
\* frames at the last target speed, up to leg i
Frames(e, i) == IF i = 0 \/ e.legs[i].target # e.legs[Len(e.legs)].target THEN 0 ELSE e.legs[i].n + Frames(e, i - 1)
Total(e) == SumSeq([i \in DOMAIN e.legs |-> e.legs[i].n])
Turned(a, b) == Abs(Wrap(a - b))
Judge(s, e) ==
    IF ~e.ok THEN C("no_error", FALSE) ELSE
    LET D == Drive(e.start, e, 1)
        n == Len(e.legs)
        steady == {i \in DOMAIN e.legs : ~Slow(e, i)}
        end == e.legs[n].after
        target == e.legs[n].target
    IN C("speed", \A i \in DOMAIN e.legs : Near(D[i].v, e.legs[i].after.v, 40))
       \o When(e.within, C("across", \A i \in steady : Near(D[i].r, e.legs[i].after.r, 1500 + Abs(D[i].r) \div 100))
                         \o C("along", \A i \in steady : Near(D[i].x, e.legs[i].after.x, 3000 + Abs(D[i].x) \div 1000))
                         \o C("direction", \A i \in steady : Turned(D[i].h, e.legs[i].after.h) <= 4000))
       \o When(e.within /\ n \in steady /\ Frames(e, n) * 2 >= 15 * e.sf /\ (Abs(e.start.h) <= 800000 \/ Frames(e, n) * 2 >= 18 * e.sf),
               C("settled", Settled(end, target, e.bend, e.sf)))
       \o When(Frames(e, n) = Total(e), C("speed_between", IF e.start.v <= target THEN end.v >= e.start.v - 5 /\ end.v <= target + 30 ELSE end.v <= e.start.v + 5 /\ end.v >= target - 30))
Follow(s, e) == s
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- Follow
Spec == L!Spec
==============================================================================
