----------------------------- MODULE ControlTrace -----------------------------
(* Recorded continuous actions and key events; the specification state is the last action of the episode. *)
EXTENDS Control, Verdict
VARIABLES l, st, bad, seen
Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], 1)
Axes(cfg) == IF cfg.lon /\ cfg.lat THEN "both" ELSE IF cfg.lon THEN "longitudinal" ELSE "lateral"
Commanded(e, w) == LET x == Commands(e.cfg, w) IN
    /\ Near(e.got.acceleration, x.acceleration, 3 + Abs(e.cfg.acc[2] - e.cfg.acc[1]) \div 9000)
    /\ Near(e.got.steering, x.steering, 3)
Judge(s, e) ==
    CASE e.k = "begin" -> C("vehicle_class", e.class = (IF e.dynamical THEN "BicycleVehicle" ELSE "Vehicle"))
      [] e.k = "act" -> C("no_error", e.ok) \o When(e.ok, C("commands_" \o Axes(e.cfg), Commanded(e, e.u)))
      [] e.k = "key" -> C("no_error", e.ok)
            \o When(e.ok, C("keys_" \o Axes(e.cfg), Commanded(e, Press(e.cfg, s[e.agent], e.down, e.key))))
      [] e.k = "metakey" -> C("meta_" \o (IF e.lon /\ e.lat THEN "both" ELSE IF e.lon THEN "longitudinal" ELSE "lateral"),
            e.ok /\ e.acts = (LET a == MetaKey(e.lon, e.lat, e.down, e.key) IN IF a = "" THEN << >> ELSE <<a>>))
Follow(s, e) == CASE e.k = "begin" -> [i \in 1..e.agents |-> [k \in 1..e.size |-> 0]]
                  [] e.k = "act" -> [s EXCEPT ![e.agent] = Clipped(e.cfg, e.u)]
                  [] e.k = "key" -> [s EXCEPT ![e.agent] = Clipped(e.cfg, Press(e.cfg, s[e.agent], e.down, e.key))]
                  [] OTHER -> s
L == INSTANCE TraceLoop WITH StartState <- << >>, Judgement <- Judge, FollowState <- Follow
Spec == L!Spec
=============================================================================
