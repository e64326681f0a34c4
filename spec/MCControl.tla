------------------------------- MODULE MCControl -------------------------------
(* All interleavings of pressed and released keys: axes are independent, and everything released means no command. *)
EXTENDS Control
VARIABLES cfg, u, held, last
vars == <<cfg, u, held, last>>
Keys == {"up", "down", "left", "right", "space"}
Init == /\ cfg \in [lon : BOOLEAN, lat : BOOLEAN, clip : {TRUE}, acc : {<<-50000, 50000>>}, steer : {<<-7854, 7854>>}]
        /\ cfg.lon \/ cfg.lat
        /\ u = IF cfg.lon /\ cfg.lat THEN <<0, 0>> ELSE <<0>>
        /\ held = {} /\ last = "none"
Down(k) == k \notin held /\ held' = held \cup {k} /\ u' = Press(cfg, u, TRUE, k) /\ last' = k /\ UNCHANGED cfg
Up(k) == k \in held /\ held' = held \ {k} /\ u' = Press(cfg, u, FALSE, k) /\ last' = k /\ UNCHANGED cfg
Next == \E k \in Keys : Down(k) \/ Up(k)
Spec == Init /\ [][Next]_vars
C0 == Commands(cfg, u)
Released == held = {} => C0.acceleration = 0 /\ C0.steering = 0
InRange == C0.acceleration \in -35000..35000 /\ C0.steering \in -5498..5498
OneAxis == (~cfg.lon => C0.acceleration = 0) /\ (~cfg.lat => C0.steering = 0)
Sides == (held = {"right"} /\ cfg.lat => C0.steering >= 0) /\ (held = {"up"} /\ cfg.lon => C0.acceleration >= 0)
Extremes == cfg.lon => Map(One, cfg.acc) = 50000 /\ Map(-One, cfg.acc) = -50000 /\ Map(0, cfg.acc) = 0
=============================================================================
