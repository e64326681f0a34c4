------------------------------ MODULE MotionTrace ------------------------------
(* Recorded frames of motion of vehicles of every kind. *)
EXTENDS Motion, Verdict
VARIABLES l, st, bad, seen
Judge(s, e) ==
    LET a == Applied(e.v, e.acc, e.crashed, e.max)
        ptol == Abs(e.v) \div (15000 * e.sf) + 10
        name(n) == n \o (IF e.crashed THEN "_crashed" ELSE IF Abs(e.v) > e.max THEN "_too_fast" ELSE "")
    IN C("no_error", e.ok) \o When(e.ok,
        C(name("speed"), Near(e.v2, e.v + Gain(a, e.sf), 6))
        \o C("lane_updated", e.lane)
        \o C("own_action", e.alone)
        \o (IF e.kind = "kinematic"
            THEN C("position", Near(e.dx, Along(e.v, e.cb, e.sf), ptol) /\ Near(e.dy, Along(e.v, e.sb, e.sf), ptol))
                 \o C("heading", Near(e.dh, Turn(e.v, e.slip, e.sf), Abs(e.v) \div (4000 * e.sf) + 5))
            ELSE C("bicycle_position", Near(e.dx, Along(e.v, e.ch, e.sf) - Along(e.vl, e.sh, e.sf), 60)
                                       /\ Near(e.dy, Along(e.v, e.sh, e.sf) + Along(e.vl, e.ch, e.sf), 60))
                 \o C("bicycle_heading", Near(e.dh, (e.yaw * 10) \div e.sf, 20))
                 \o C("bicycle_lateral" \o (IF Abs(e.v) < M THEN "_slow" ELSE ""),
                      LET d == Lateral(e.v, e.vl, e.yaw, e.delta, e.tf, e.tr)
                      IN Near(e.vl2 - e.vl, d.dlat \div e.sf, 100 + Abs(d.dlat) \div 500)
                         /\ Near(e.yaw2 - e.yaw, d.dyaw \div e.sf, 100 + Abs(d.dyaw) \div 500)))
        \o When(e.timer2 # "none", C("timer", Near(e.dtimer, 1000000 \div e.sf, 2))))
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- LAMBDA s, e : s
Spec == L!Spec
=============================================================================
