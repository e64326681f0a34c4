------------------------------ MODULE MetaAction ------------------------------
(***************************************************************************)
(* Meta-actions of a vehicle with a target lane and a target speed.        *)
(* A state is [lane, sidx, ts]: the number of the target lane in its road, *)
(* the index of the target speed and the target speed (mm/s).              *)
(* env = [n, reach, speeds, speed, mdp]: number of lanes of the road,      *)
(* which of them can be reached from the position of the vehicle, the      *)
(* allowed speeds, the present speed, and whether speeds are restricted    *)
(* to the allowed ones.                                                    *)
(***************************************************************************)
EXTENDS Arith
\* a lane can be reached when changing to it is not forbidden, and it is beside the vehicle, at two widths at most
Reachable(f) == ~f.forbidden /\ Abs(f.lat) <= 2 * f.width /\ 0 <= f.s /\ f.s < f.length + 5000
ReachUnsure(f) == ~f.forbidden /\ (Near(Abs(f.lat), 2 * f.width, 2) \/ Near(f.s, 0, 2) \/ Near(f.s, f.length + 5000, 2))
\* allowed speeds closest to a speed (a set: ties)
Closest(speeds, v) == {i \in 0..(Len(speeds) - 1) : \A j \in 0..(Len(speeds) - 1) :
                           Abs(speeds[i + 1] - v) <= Abs(speeds[j + 1] - v) + 3}
\* documented allowed speeds of the agents of each task
AllowedSpeeds(task) == CASE task = "roundabout" -> <<0, 8000, 16000>> [] task = "intersection" -> <<0, 4500, 9000>> [] OTHER -> <<20000, 25000, 30000>>
Labels(lon, lat) == IF lon /\ lat THEN <<"LANE_LEFT", "IDLE", "LANE_RIGHT", "FASTER", "SLOWER">>
                    ELSE IF lon THEN <<"SLOWER", "IDLE", "FASTER">> ELSE <<"LANE_LEFT", "IDLE", "LANE_RIGHT">>
Shift(a) == IF a = "LANE_LEFT" THEN -1 ELSE IF a = "LANE_RIGHT" THEN 1 ELSE 0
Change(a) == IF a = "SLOWER" THEN -1 ELSE IF a = "FASTER" THEN 1 ELSE 0
\* may t be the state after action a in state s
Follows(s, a, env, t) ==
    /\ LET k == s.lane + Shift(a) IN
       t.lane = IF Shift(a) # 0 /\ k \in 0..(env.n - 1) /\ env.reach[k + 1] THEN k ELSE s.lane
    /\ IF Change(a) = 0 THEN t.sidx = s.sidx /\ t.ts = s.ts
       ELSE IF ~env.mdp THEN Near(t.ts, s.ts + 5000 * Change(a), 2) /\ t.sidx = s.sidx
       ELSE /\ \E i \in Closest(env.speeds, env.speed) : t.sidx = Clip(i + Change(a), 0, Len(env.speeds) - 1)
            /\ Near(t.ts, env.speeds[t.sidx + 1], 2)
Available(s, env, lon, lat) ==
    {"IDLE"} \cup (IF lat THEN {a \in {"LANE_LEFT", "LANE_RIGHT"} : s.lane + Shift(a) \in 0..(env.n - 1)
                                                                    /\ env.reach[s.lane + Shift(a) + 1]} ELSE {})
             \cup (IF lon /\ s.sidx < Len(env.speeds) - 1 THEN {"FASTER"} ELSE {})
             \cup (IF lon /\ s.sidx > 0 THEN {"SLOWER"} ELSE {})
=============================================================================
