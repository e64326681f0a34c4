----------------------------- MODULE MCMetaAction -----------------------------
(* All sequences of meta-actions on a small road, whatever lanes can be reached and whatever the present speed. *)
EXTENDS MetaAction
CONSTANTS NLanes, Speeds, Present
SpeedsV == <<20000, 25000, 30000>>
PresentV == {0, 19000, 22501, 26000, 34000}
VARIABLES s, env, last, prev
vars == <<s, env, last, prev>>
Envs == [n : {NLanes}, reach : [1..NLanes -> BOOLEAN], speeds : {Speeds}, speed : Present, mdp : {TRUE}]
Init == /\ s \in [lane : 0..(NLanes - 1), sidx : 0..(Len(Speeds) - 1), ts : Range(Speeds)] /\ s.ts = Speeds[s.sidx + 1]
        /\ env \in Envs /\ last = "none" /\ prev = s
Act(a) == /\ \E t \in [lane : 0..(NLanes - 1), sidx : 0..(Len(Speeds) - 1), ts : Range(Speeds)] :
                Follows(s, a, env, t) /\ s' = t
          /\ last' = a /\ prev' = s /\ UNCHANGED env
Drive == env' \in Envs /\ last' = "none" /\ prev' = s /\ UNCHANGED s
Next == Drive \/ \E a \in Range(Labels(TRUE, TRUE)) : Act(a)
Spec == Init /\ [][Next]_vars
Valid == s.lane \in 0..(NLanes - 1) /\ s.sidx \in 0..(Len(Speeds) - 1) /\ s.ts = Speeds[s.sidx + 1]
\* an unavailable lane change does nothing; one lane and one axis at most change; idling changes nothing
Local == last # "none" =>
    /\ Abs(s.lane - prev.lane) <= 1 /\ (s.lane = prev.lane \/ s.sidx = prev.sidx)
    /\ (last = "IDLE" => s = prev)
    /\ (last \in {"LANE_LEFT", "LANE_RIGHT"} /\ last \notin Available(prev, env, TRUE, TRUE)) => s = prev
    /\ (last \in {"LANE_LEFT", "LANE_RIGHT"} /\ last \in Available(prev, env, TRUE, TRUE)) => s.lane = prev.lane + Shift(last)
    /\ (last = "FASTER" => s.ts >= Min(env.speed, Speeds[Len(Speeds)])) /\ (last = "SLOWER" => s.ts <= Max(env.speed, Speeds[1]))
NeverStuck == \A a \in Range(Labels(TRUE, TRUE)) : ENABLED Act(a)
=============================================================================
