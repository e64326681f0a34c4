--------------------------- MODULE MetaActionTrace ---------------------------
(* Recorded meta-actions, available actions, and allowed speeds. *)
EXTENDS MetaAction, Verdict
VARIABLES l, st, bad, seen
EnvOf(e) == [n |-> Len(e.lanes), reach |-> [i \in DOMAIN e.lanes |-> Reachable(e.lanes[i])], speeds |-> e.speeds,
             speed |-> e.speed, mdp |-> e.mdp]
Sure(e, i) == i + 1 \notin DOMAIN e.lanes \/ ~ReachUnsure(e.lanes[i + 1])
Near3(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Near(s[i], t[i], 1)
Judge(s, e) ==
    CASE e.k = "act" ->
            LET a == IF e.label # "" THEN e.label ELSE Labels(e.lon, e.lat)[e.index + 1]
            IN C("no_error", e.ok)
               \o When(e.ok /\ Sure(e, e.s.lane + Shift(a)),
                    C("effect_" \o a, e.t.road = e.s.road /\ Follows(e.s, a, EnvOf(e), e.t))
                    \o When(e.mdp, C("valid_target", e.t.sidx \in 0..(Len(e.speeds) - 1) /\ e.t.lane \in 0..(Len(e.lanes) - 1)))
                    \o When(Shift(a) # 0 /\ a \notin Available(e.s, EnvOf(e), TRUE, TRUE), C("unavailable_is_idle", e.t.lane = e.s.lane)))
               \o C("others_untouched", e.others)
      [] e.k = "avail" ->
            When(\A i \in {-1, 1} : Sure(e, e.s.lane + i),
                C("available", e.ok /\ {Labels(e.lon, e.lat)[i + 1] : i \in Range(e.acts)} = Available(e.s, EnvOf(e), e.lon, e.lat)
                               /\ Cardinality(Range(e.acts)) = Len(e.acts)))
      [] e.k = "speeds" ->
            C("allowed_speeds", Near3(e.speeds, AllowedSpeeds(e.kind)))
            \o C("index_to_speed", \A i \in DOMAIN e.speeds : Near(e.got[i], e.speeds[i], 2))
            \o C("speed_to_index", \A i \in DOMAIN e.probe : e.idx[i] \in Closest(e.speeds, e.probe[i]))
      \* vehicles with speeds of their own; the index of a vehicle without one is that of its speed
      [] e.k = "own" -> C("no_error", e.ok) \o When(e.ok, C("initial_target", e.sidx \in Closest(e.speeds, e.asked) /\ Near(e.ts, e.speeds[e.sidx + 1], 2)))
      [] e.k = "index" -> C("no_error", e.ok) \o When(e.ok,
            C("index_to_speed", \A i \in DOMAIN e.speeds : Near(e.got[i], e.speeds[i], 2))
            \o C("speed_to_index", \A i \in DOMAIN e.probe : e.idx[i] \in Closest(e.speeds, e.probe[i]) /\ e.default[i] \in Closest(e.speeds, e.probe[i]))
            \o C("speed_index_of_others", \A i \in DOMAIN e.probe : e.others[i] \in Closest(e.speeds, e.probe[i]))
            \o C("speed_index_of_mdp", e.mine = 0))
      [] e.k = "new" -> C("allowed_speeds", Near3(e.speeds, AllowedSpeeds(""))) \o C("initial_target", e.sidx \in Closest(e.speeds, e.asked) /\ Near(e.ts, e.speeds[e.sidx + 1], 2))
L == INSTANCE TraceLoop WITH StartState <- 0, Judgement <- Judge, FollowState <- LAMBDA s, e : s
Spec == L!Spec
=============================================================================
