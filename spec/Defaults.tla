------------------------------- MODULE Defaults -------------------------------
(* Documented settings of the tasks: pairs of a setting and its value, as text; those of a task come before the common ones. *)
EXTENDS Arith
Common == << <<"observation.type", "TimeToCollision">>, <<"action.type", "DiscreteMetaAction">>, <<"simulation_frequency", "15">>, <<"policy_frequency", "1">>,
   <<"other_vehicles_type", "highway_env.vehicle.behavior.IDMVehicle">>, <<"screen_width", "600">>, <<"screen_height", "150">>,
   <<"centering_position", "0.3 0.5">>, <<"scaling", "5.5">>, <<"show_trajectories", "False">>, <<"render_agent", "True">>,
   <<"manual_control", "False">>, <<"real_time_rendering", "False">> >>
Crossing == << <<"screen_height", "600">>, <<"centering_position", "0.5 0.6">>, <<"scaling", "7.15">>, <<"duration", "13">>, <<"destination", "o1">>,
   <<"initial_vehicle_count", "10">>, <<"spawn_probability", "0.6">>, <<"collision_reward", "-5">>, <<"normalize_reward", "False">> >>
Goal == << <<"observation.type", "KinematicsGoal">>, <<"observation.features", "x y vx vy cos_h sin_h">>, <<"observation.scales", "100 100 5 5 1 1">>,
   <<"observation.normalize", "False">>, <<"action.type", "ContinuousAction">>, <<"policy_frequency", "5">>, <<"screen_height", "300">>,
   <<"centering_position", "0.5 0.5">>, <<"scaling", "7">>, <<"duration", "100">>, <<"controlled_vehicles", "1">> >>
Own(kind) ==
    CASE kind = "highway" -> << <<"observation.type", "Kinematics">>, <<"lanes_count", "4">>, <<"vehicles_count", "50">>, <<"controlled_vehicles", "1">>,
            <<"initial_lane_id", "None">>, <<"duration", "40">>, <<"ego_spacing", "2">>, <<"vehicles_density", "1">>, <<"collision_reward", "-1">>,
            <<"reward_speed_range", "20 30">>, <<"offroad_terminal", "False">> >>
      [] kind = "merge" -> << >>
      [] kind = "roundabout" -> << <<"observation.type", "Kinematics">>, <<"observation.absolute", "True">>, <<"observation.features_range.x", "-100 100">>,
            <<"observation.features_range.y", "-100 100">>, <<"observation.features_range.vx", "-15 15">>, <<"observation.features_range.vy", "-15 15">>,
            <<"incoming_vehicle_destination", "None">>, <<"screen_height", "600">>, <<"centering_position", "0.5 0.6">>, <<"duration", "11">> >>
      [] kind = "two-way" -> << <<"observation.horizon", "5">> >>
      [] kind = "intersection" -> << <<"observation.type", "Kinematics">>, <<"observation.vehicles_count", "15">>,
            <<"observation.features", "presence x y vx vy cos_h sin_h">>, <<"observation.features_range.x", "-100 100">>,
            <<"observation.features_range.y", "-100 100">>, <<"observation.features_range.vx", "-20 20">>, <<"observation.features_range.vy", "-20 20">>,
            <<"observation.absolute", "True">>, <<"observation.observe_intentions", "False">>, <<"action.longitudinal", "True">>,
            <<"action.lateral", "False">>, <<"controlled_vehicles", "1">> >> \o Crossing
      [] kind = "multi-intersection" -> << <<"observation.type", "MultiAgentObservation">>, <<"observation.observation_config.type", "Kinematics">>,
            <<"action.type", "MultiAgentAction">>, <<"action.action_config.type", "DiscreteMetaAction">>, <<"action.action_config.lateral", "False">>,
            <<"action.action_config.longitudinal", "True">>, <<"controlled_vehicles", "2">> >> \o Crossing
      [] kind = "parking" -> Goal
      [] kind = "summon" -> << <<"vehicles_count", "10">> >> \o Goal
      [] kind = "lane-keeping" -> << <<"observation.type", "AttributesObservation">>, <<"observation.attributes", "state derivative reference_state">>,
            <<"action.type", "ContinuousAction">>, <<"action.steering_range", "-1.0472 1.0472">>, <<"action.longitudinal", "False">>, <<"action.lateral", "True">>,
            <<"action.dynamical", "True">>, <<"simulation_frequency", "10">>, <<"policy_frequency", "10">>, <<"state_noise", "0.05">>,
            <<"derivative_noise", "0.05">>, <<"screen_height", "250">>, <<"scaling", "7">>, <<"centering_position", "0.4 0.5">> >>
\* registered names: <<class of task, changed settings>>
Named(id) ==
    CASE id = "parking-ActionRepeat-v0" -> <<"parking", << <<"policy_frequency", "1">>, <<"duration", "20">> >> >>
      [] id = "summon-ActionRepeat-v0" -> <<"summon", << <<"policy_frequency", "1">> >> >>
      [] id = "intersection-multi-agent-v0" -> <<"multi-intersection", << >> >>
      [] id = "intersection-multi-agent-v1" -> <<"multi-intersection", << >> >>
      [] id = "highway-v0" -> <<"highway", << >> >> [] id = "merge-v0" -> <<"merge", << >> >> [] id = "roundabout-v0" -> <<"roundabout", << >> >>
      [] id = "two-way-v0" -> <<"two-way", << >> >> [] id = "intersection-v0" -> <<"intersection", << >> >> [] id = "parking-v0" -> <<"parking", << >> >>
      [] id = "summon-v0" -> <<"summon", << >> >> [] id = "lane-keeping-v0" -> <<"lane-keeping", << >> >>
\* the first mention of a setting holds
RECURSIVE Look(_, _)
Look(s, p) == IF s = << >> THEN "?" ELSE IF Head(s)[1] = p THEN Head(s)[2] ELSE Look(Tail(s), p)
Settings(kind, changed) == changed \o Own(kind) \o Common
Expected(kind, changed) == LET s == Settings(kind, changed) IN {<<s[i][1], Look(s, s[i][1])>> : i \in DOMAIN s}
=============================================================================
