"""The properties: one entry each. See tools/meta.py."""
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, forall, tests, files, mechanism, observe, note, technique=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()), over=over, forall=" ".join(forall.split()),
             tests=" ".join(tests.split()), files=files, mechanism=mechanism, observe=observe, note=" ".join(note.split()))
    if technique:
        d["technique"] = technique
    PROPS.append(d)


P("C01", "One decision step: the right frames, the action applied once, exact counters",
  """A decision step runs exactly (simulation frequency // policy frequency) simulation frames of 1/(simulation frequency)
  seconds, fewer only when the episode ends on the last frame run, and the counters of steps and frames advance by what was
  run and restart from zero at each reset.
  While the episode is not over, the action is handed to every controlled vehicle exactly once per decision step, before
  the first frame, and never when the action is None or under manual control.
  In every frame every controlled vehicle takes one decision of its own, after any action handed over, and a closed
  environment runs a single frame per step.""",
  ["configurations", "histories", "inputs"],
  "all environments, frequency pairs, action sequences, and histories of reset, step and close",
  "tests/envs/test_time.py only checks the duration of two steps at the default frequencies of two environments",
  ["highway_env/envs/common/abstract.py", "highway_env/road/road.py"],
  [("decision loop", "AbstractEnv.step, AbstractEnv._simulate"), ("road decisions and motion", "Road.act, Road.step")],
  ["env.step", "vehicle.act", "road.step"],
  """The decision loop (one action per frame) is model checked exhaustively for small frequencies and durations, liveness
  included in the thorough tier; every recorded step of all environments is judged by TLC against it.  Lane keeping does
  not count its decision steps (named deviation), so that clause excludes it.""")

P("C02", "Episodes end exactly when documented, and step information is truthful",
  """A step reports the end of the episode exactly when the reached state is terminal for the task: collision of the ego, the
  configured duration, leaving the road (highway, when so configured), passing the ramp (merge), all agents arrived or any
  crashed (intersection), goal reached (parking, summon); registered step limits (two-way 15, summon 100 and 20,
  lane keeping 200) apply on top, and lane keeping never ends otherwise.
  The returned information holds the ego speed, its crash flag and the action given, and a cost exactly where
  defined (highway and intersection: 1 if crashed; two-way: the same plus 1/15 on the opposite lane).
  Goal tasks also report per-agent success (goal distance below the threshold, and no crash in summon), and the
  intersection reports per-agent ends, which its variant for separate agents returns instead.""",
  ["histories", "configurations", "inputs"],
  "all tasks, durations, seeds and action sequences",
  "tests/envs/test_gym.py checks one or two random steps per environment, never a terminal state or its information",
  ["highway_env/envs"],
  [("terminal tests", "_is_terminal of each environment"), ("information", "AbstractEnv.step, _cost, ParkingEnv.step, IntersectionEnv.step")],
  ["env.step return value"],
  """Terminal conditions, costs, success and step limits are specified in TLA+ (Episode, TerminationTrace) over facts of the
  reached state; TLC judges every recorded step.  States within 2 mm (or 1e-5 of goal distance) of a threshold are not judged.""")

P("C03", "Rewards follow their documented composition, task by task",
  """The reward of every step is the documented combination of crash, lane, speed, lane-change and ramp terms of its task,
  rescaled as documented (highway, merge, roundabout, normalised intersection), and is zero off-road on the highway.
  Goal tasks are rewarded by minus the square root of the weighted goal distance, summed over agents, minus 5 upon a crash in
  summon; lane keeping by one minus the squared distance to the followed lane over its width; the intersection by the mean of
  the per-agent rewards it also returns (its variant for separate agents returns these instead).
  They are defined wherever the ego-vehicle drives, whatever its number of speeds (also past the end of the two-way road, where the opposite one
  follows), and stay in [0, 1] for highway, roundabout, two-way (while the lane aimed at is on the road driven) and the normalised intersection, and are never positive for
  goal tasks.""",
  ["histories", "configurations", "inputs"],
  "all tasks, seeds, actions, and reward configurations (collision reward, rewarded speed range, normalisation)",
  "no existing test looks at the value of any reward",
  ["highway_env/envs"],
  [("rewards", "_reward of each environment, IntersectionEnv._agent_reward, ParkingEnv.compute_reward")],
  ["env.step return value"],
  """The compositions are written independently in TLA+ (Reward), their ranges and monotonicity model checked over small
  facts; TLC judges every recorded reward to about 1e-4.""")

P("C04", "Observations lie in the declared spaces, which are the documented ones",
  """Every observation returned by reset and step is finite, has the declared shape and lies within the declared bounds, for
  every task, observation type and number of agents.
  The declared observation space is the documented one: kinematics rows by features in [-1, 1], time-to-collision 3 x 3 x
  (horizon times policy frequency) in [0, 1], occupancy features x rows x columns of the grid in [-1, 1], stacked grayscale
  images in [0, 255], and unbounded goal vectors and attributes.
  The action space follows the configured axes (five meta-actions, three with a single axis, or a box in [-1, 1] with one
  coordinate per axis), and spaces are tuples with one element per agent in multi-agent configurations.""",
  ["configurations", "inputs", "histories"],
  "all tasks, observation types and options, action configurations, numbers of agents, seeds and action sequences",
  "tests/envs/test_gym.py checks membership for one step of each default environment",
  ["highway_env/envs/common/observation.py", "highway_env/envs/common/action.py", "highway_env/envs/common/abstract.py"],
  [("spaces", "ObservationType.space, ActionType.space, AbstractEnv.define_spaces"), ("observations", "ObservationType.observe")],
  ["env.reset", "env.step", "env.observation_space", "env.action_space"],
  """Spaces.tla defines the space of each configuration and membership; configurations are generated at random over
  documented options.  Grayscale images are not combined with goal tasks, whose rewards need goal observations.""")

P("C05", "Kinematics observations show the closest vehicles, in the requested frame",
  """The first row describes the ego-vehicle in absolute coordinates; the following rows describe the closest other vehicles
  (up to the requested number of rows), sorted by distance along the lane of the ego-vehicle, among those within 180 m of it
  and, unless vehicles behind are asked for, less than 10 m behind it; the remaining rows are zero.
  Their position and velocity are relative to the ego-vehicle unless absolute coordinates are asked for, and their
  destination shows only when intentions are observed.
  Features that have a range (the configured one, or +-150 m, +-4 m per lane of the road, +-60 m/s) are mapped from it to
  [-1, 1] and clipped, as configured; shuffling only permutes the rows after the first.""",
  ["configurations", "inputs", "histories"],
  "all scenes, observation options, features, ranges, and numbers of rows and agents",
  "tests/envs/test_gym.py only checks shapes and bounds; no row is ever compared with the scene",
  ["highway_env/envs/common/observation.py", "highway_env/road/road.py", "highway_env/vehicle/kinematics.py"],
  [("observation", "KinematicObservation.observe, normalize_obs"), ("selection", "Road.close_vehicles_to"), ("features", "Vehicle.to_dict")],
  ["env.reset", "env.step", "env.observation_type.observe"],
  """Selection and scaling are specified in Kinematics.tla (model checked over small scenes); TLC judges recorded observations
  of generated scenes to 1e-5.  Scenes where 2 mm could change the selection are skipped.""")

P("C06", "Occupancy grids show each vehicle in the cell of its relative position",
  """A cell of an occupancy grid is non-zero only if the position of a vehicle relative to the observer lies in it, with
  rows along y and columns along x starting from the lower ends of the configured extents and of the configured steps.
  Each layer then holds its feature of this vehicle (the last one of the road when several share the cell), relative to the
  observer for positions and velocities, mapped to [-1, 1] from the configured range where there is one (+-60 m/s by default for
  velocities), and clipped.
  Vehicles outside the grid do not show, and each agent is at the centre of its own grid.""",
  ["configurations", "inputs"],
  "all scenes, grid extents, steps, features and ranges",
  "no existing test looks at the contents of an occupancy grid",
  ["highway_env/envs/common/observation.py"],
  [("grid", "OccupancyGridObservation.observe, normalize")],
  ["env.observation_type.observe", "env.step"],
  """Occupancy.tla (model checked on a small asymmetric grid) judges recorded grids layer by layer; scenes with a vehicle
  within 2 mm of a cell edge are skipped.""")

P("C07", "Time-to-collision grids predict exactly the constant-speed collisions",
  """For each allowed speed of the observer, the grid marks (1 for the vehicle, 1/2 for its front and rear margins, half the
  lengths of both vehicles) the periods just before and after the time at which a vehicle on the same or a connected road is met, should everybody keep its
  speed, on the lane of this vehicle, or on all lanes when the number of lanes differs.
  Nothing else is marked: not vehicles that move away, are met beyond the horizon, have exactly the speed considered or are on
  roads that are not connected within three roads along the route.
  The observation shows three speeds around the current one (repeating the extreme ones, or the only one) and three lanes around the
  current lane, where lanes outside the road are all ones.""",
  ["inputs", "configurations"],
  "all scenes, horizons, frequencies and observers",
  "no existing test looks at the contents of a time-to-collision grid",
  ["highway_env/envs/common/finite_mdp.py", "highway_env/envs/common/observation.py"],
  [("grid", "compute_ttc_grid"), ("view", "TimeToCollisionObservation.observe")],
  ["compute_ttc_grid", "env.observation_type.observe"],
  """TimeToCollision.tla gives for every cell a lower and an upper value that differ only where 2 mm or 1 mm/s could change
  the period; the soundness of this tolerance is model checked; TLC judges recorded grids and views.""")

P("C14", "Routes are shortest paths and road following respects them",
  """Path search returns a shortest path between two nodes, and nothing when there is none; planned routes start with the lane of
  the vehicle and follow such a path.
  At the end of a lane a vehicle continues on its route if it goes on from there (dropping the road just finished) or else on some
  outgoing road, on the same lane when the numbers of lanes agree and else on the closest lane, and stays on its
  lane at a dead end; before the end it keeps its lane.
  Side lanes, connections between roads (along the route, up to a depth) and the alternative routes at the next intersection are
  exactly those of the graph.""",
  ["inputs", "configurations"],
  "all directed graphs with up to four nodes, random larger networks with several lanes, the networks of the tasks, all routes",
  "tests/road/test_road.py checks one network and three lane changes",
  ["highway_env/road/road.py", "highway_env/vehicle/controller.py"],
  [("graph", "RoadNetwork.shortest_path, next_lane, is_connected_road, side_lanes"),
   ("vehicles", "ControlledVehicle.plan_route_to, follow_road, get_routes_at_intersection, set_route_at_intersection")],
  ["network methods", "vehicle.plan_route_to", "vehicle.follow_road", "vehicle.set_route_at_intersection"],
  """RoadNet.tla is model checked against a breadth-first search over all graphs of three nodes; TLC enumerates all graphs of
  three and four nodes (quick: 500 of the latter) to drive the real search, and judges every answer.""")

P("C11", "Vehicles crash exactly when their bodies overlap, with the documented effects",
  """In every frame a vehicle is marked as crashed as soon as its body (nine tenths of its length and width, oriented) overlaps
  that of another vehicle or an obstacle, and for no other reason; a crash is never undone, and vehicles whose
  collisions are disabled are neither marked nor mark others.
  Two vehicles that collide both take the slowest of their speeds (in magnitude), a vehicle that hits an obstacle stops, and
  no other speed changes; obstacles that are hit are marked so.
  Overlapping a landmark only marks the landmark as hit, by vehicles that have not crashed; overlap is symmetric and judged for all positions, sizes and
  orientations.""",
  ["inputs", "histories"],
  "all pairs of rotated rectangles, and all frames of all tasks and of dense random scenes",
  "tests/vehicle/test_dynamics.py only checks one head-on and one lateral pair of vehicles",
  ["highway_env/vehicle/kinematics.py", "highway_env/vehicle/objects.py", "highway_env/utils.py"],
  [("overlap", "utils.rotated_rectangles_intersect"), ("collision", "Vehicle.check_collision, Vehicle._is_colliding, Road.step")],
  ["road.step", "vehicle.crashed", "vehicle.speed", "object.hit"],
  """The overlap is a separating axis test in TLA+; the pairwise rule is model checked to imply the frame rule for every order of
  checks; TLC judges frames of dense scenes and of the tasks.  Overlaps that 5 mm could change are not judged.""")

P("C12", "Every frame moves each vehicle by the documented equations of motion",
  """During a frame of duration dt a vehicle moves by its speed times dt along its heading plus slip angle
  (atan(tan(steering)/2)), turns by speed * sin(slip)/(length/2) * dt, and then changes speed by its acceleration times dt.
  Crashed vehicles do not steer and brake by their speed per second, whatever was asked, and vehicles beyond the maximum speed, in
  either direction, are pulled back to it at the rate of the excess; dynamical (bicycle) vehicles follow the documented lateral and
  yaw equations, below and above 1 m/s.
  Their lane becomes the closest one to the reached position, the lane-change timer of simulated drivers advances by dt, and no
  other vehicle moves.""",
  ["inputs", "histories"],
  "all vehicle classes, speeds, headings, commands, crash flags and frame durations",
  "tests/vehicle/test_dynamics.py checks one straight motion, one braking and one steering",
  ["highway_env/vehicle/kinematics.py", "highway_env/vehicle/dynamics.py", "highway_env/vehicle/behavior.py"],
  [("motion", "Vehicle.step, Vehicle.clip_actions, Vehicle.on_state_update, BicycleVehicle.step, IDMVehicle.step")],
  ["vehicle.step", "vehicle.position", "vehicle.heading", "vehicle.speed", "vehicle.lane_index"],
  """Motion.tla gives one frame in fixed point (clipping and crash braking model checked to converge below the maximum speed);
  TLC judges each recorded frame of all vehicle classes to about 0.1 mm.""")

P("C13", "Meta-actions change the targets exactly as documented, and only when possible",
  """A lane change moves the target lane by exactly one in the asked direction (left: lower number) when this lane exists, does not
  forbid changes and can be reached from the position of the vehicle (beside it, at two widths at most), and otherwise
  leaves it; nothing but the targets of the acting vehicle changes.
  Going faster or slower moves the target speed to the allowed speed next to the one closest to the present speed, within the
  range of allowed speeds (by 5 m/s for vehicles without allowed speeds); being idle changes nothing.
  Allowed speeds are 20, 25 and 30 m/s (0, 8 and 16 in roundabouts, 0, 4.5 and 9 at intersections), evenly spaced when others are set; speeds and indexes are mapped to each other by closeness (also of vehicles that have no index), and the available actions are
  exactly idle, the possible lane changes, and the speed changes that stay in range, for the configured axes.""",
  ["inputs", "configurations", "histories"],
  "all tasks with meta-actions, all lanes, positions, speeds and target speeds, all subsets of axes",
  "tests/vehicle/test_control.py drives one lane change and one speed change",
  ["highway_env/vehicle/controller.py", "highway_env/envs/common/action.py", "highway_env/envs/common/abstract.py"],
  [("effects", "ControlledVehicle.act, MDPVehicle.act, index_to_speed, speed_to_index"),
   ("availability", "AbstractEnv.get_available_actions")],
  ["env.action_type.act", "vehicle.act", "vehicle.target_lane_index", "vehicle.target_speed", "env.get_available_actions"],
  """MetaAction.tla is model checked (targets always valid, available changes effective); TLC judges recorded actions over
  all tasks.  Reachability is taken as the code does (5 m beyond the end of the lane), and not judged within 2 mm of its limits.""")

P("C22", "Continuous and keyboard control map commands exactly as configured",
  """A continuous action is clipped to [-1, 1] (unless clipping is disabled) and mapped linearly to the configured ranges of
  acceleration and steering, in this order; with a single axis the other command is zero, and each agent receives its own
  action.
  Vehicles are dynamical exactly when configured so.
  Under manual control arrow keys set (on press, to +-0.7) and reset (on release, to 0) their own coordinate of the last action
  and keep the other one (up and right positive), and with meta-actions a key press triggers right: faster, left: slower, down:
  lane right, up: lane left, for the configured axes only, while a release does nothing.""",
  ["inputs", "configurations", "histories"],
  "all ranges, axes, clipping, agents, actions inside and outside the box, and sequences of key events",
  "no existing test checks the command that results from an action",
  ["highway_env/envs/common/action.py", "highway_env/envs/common/graphics.py"],
  [("mapping", "ContinuousAction.act"), ("keys", "EventHandler.handle_event")],
  ["env.action_type.act", "EventHandler.handle_event", "vehicle.action"],
  """The mapping and the key handling are specified in TLA+ over the last action, model checked (single axes included), and every
  recorded sequence of actions and key events is judged by TLC to 3e-4.""")

P("C08", "Episodes are reproducible: configuration, seed and actions determine everything",
  """Given a configuration and a seed, everything an environment shows (scenes, observations, rewards, ends, information) is a
  function of the operations made on it since: the same in every process, whatever the hash seed of the interpreter, the
  global random generators and the other environments used meanwhile.
  Resetting right after seeding starts the same episode again, whatever happened before.
  Seeds matter: in tasks with random scenes, different seeds and successive episodes lead to different scenes.""",
  ["histories", "schedules", "configurations"],
  "all tasks and registered environments, seeds, action sequences, and histories of seeding and resets",
  "no existing test compares two runs",
  ["highway_env/envs", "highway_env/road/road.py", "highway_env/vehicle/behavior.py"],
  [("seeding", "AbstractEnv.seed, np_random of the environment and of its road"), ("route choice", "RoadNetwork.shortest_path")],
  ["env.seed", "env.reset", "env.step", "env.road"],
  """Histories.tla identifies environments with their histories (model checked on small worlds: same history, same state); the
  same jobs run in several processes with other hash seeds and noise, and TLC compares what was shown for each history.""")

P("C09", "Copies and derived environments are faithful, and isolated from the original",
  """A deep copy of an environment shows the same as the original, shares nothing with it, behaves identically under the same
  operations, and neither is affected by what happens to the other.
  Derived environments leave the original untouched and change exactly what they announce: simplifying keeps the controlled vehicles
  and those within 180 m of the ego; changing the class of the other vehicles keeps their place, motion, targets, routes and lane-change timers;
  preferred lanes (other than 0), routes at intersections and random behaviours concern the simulated drivers only, setting a field all vehicles
  but the ego, and calling a method all vehicles that have it.
  Routes are then among those available at the next intersection, and random parameters within their documented
  ranges.""",
  ["histories", "inputs", "schedules"],
  "all tasks, scenes, points of an episode at which copies are made, and interleavings of later operations",
  "no existing test copies an environment",
  ["highway_env/envs/common/abstract.py", "highway_env/vehicle/behavior.py", "highway_env/vehicle/controller.py"],
  [("copy", "AbstractEnv.__deepcopy__"), ("derived", "simplify, change_vehicles, set_preferred_lane, set_route_at_intersection, set_vehicle_field, randomize_behaviour")],
  ["copy.deepcopy(env)", "env.simplify", "env.change_vehicles", "env.road.vehicles"],
  """Effects are relations between vehicles in Preprocess.tla; isolation and equal behaviour are judged by Histories.tla over schedules
  that TLC enumerates (all of length 4, sampled, then continued).""")

P("C10", "Environments do not influence each other",
  """Creating, configuring, seeding, resetting, stepping, observing, copying or closing an environment never changes what another
  environment, of the same task or of another, shows now or later; episodes are the same alone as interleaved with others.
  The documented parameters of all classes and the default configurations are never changed by using an environment.
  The configuration given by the user is not modified, and observations already returned do not change afterwards.""",
  ["schedules", "histories", "configurations"],
  "all interleavings of operations on up to three environments of any tasks",
  "existing tests use one environment at a time",
  ["highway_env/envs", "highway_env/vehicle"],
  [("per-environment state", "AbstractEnv.__init__, reset"), ("class parameters", "IntersectionEnv._make_vehicles, RoundaboutEnv._make_vehicles")],
  ["env.step", "env.reset", "class attributes"],
  """TLC enumerates all schedules of four operations on three environments, sampled and run on the real code; Histories.tla
  requires every environment to show what its own history determines.  Known finding: intersections change three parameters of the
  class IDMVehicle; elsewhere they are given a class of their own.""")

P("C15", "Lane geometry: coordinates, headings, lane membership, distances, closest lanes",
  """Straight, sinusoidal and circular lanes convert between world positions and local coordinates consistently: the conversions are
  inverses of each other, the longitudinal coordinate follows the lane's line from its start, positive lateral coordinates are on the
  same side everywhere, and the heading is the direction of motion along the lane.
  Being on a lane, able to reach it, past its end, the L1 distance to it (with or without a weighted heading difference) and the closest
  lane of a network are exactly the documented functions of these coordinates, the lane's length and its width.
  Places along a route, objects and vehicles made on a lane, and distances between vehicles along a lane are where these coordinates say,
  straight networks have the requested lanes, and consecutive lanes of the standard roads join without a gap or a kink.""",
  ["inputs", "configurations"],
  "all lanes of the three types with any parameters, positions, headings, margins, networks and routes",
  "tests/road/test_road.py only checks a network with straight lanes and one route",
  ["highway_env/road/lane.py", "highway_env/road/road.py"],
  [("lane", "StraightLane, SineLane, CircularLane, AbstractLane"), ("network", "RoadNetwork.get_closest_lane_index, position_heading_along_route")],
  ["lane.position", "lane.local_coordinates", "lane.heading_at", "lane.on_lane", "network.get_closest_lane_index"],
  """The curves are written in TLA+ with fixed-point trigonometry (Trig.tla); TLC checks on a grid that they have unit speed along their
  tangent and unique coordinates, and evaluates them on every recorded place.  At a centre of an arc, or opposite to its start, where
  coordinates jump, nothing is required.""")

P("C16", "Simulated drivers accelerate and steer by the documented models (IDM, linear)",
  """An IDM driver alone accelerates by COMFORT_ACC_MAX * (1 - (speed/target speed)^DELTA), and behind an entity at distance d along its lane by
  COMFORT_ACC_MAX * (d*/d)^2 less, where d* = DISTANCE_WANTED + speed * TIME_WANTED + speed * approach rate / (2 sqrt(-COMFORT_ACC_MAX * COMFORT_ACC_MIN));
  a linear driver by its parameters times (missing target speed, lower speed of the leader, missing safety distance).
  In traffic each driver applies this to the nearest vehicle or obstacle ahead on its lane (landmarks excepted, those beside it included), limited to +-ACC_MAX, and steers
  towards its target lane by its documented controller, limited to +-pi/3; crashed drivers decide nothing, and random behaviours get
  parameters of their own within the documented ranges.
  Drivers who start at the desired gap or further never run into a leader who brakes no harder than 5 m/s2.""",
  ["inputs", "histories", "configurations"],
  "all classes of drivers, parameters, speeds, gaps, leaders (vehicles with or without targets, obstacles), and traffic scenes of all tasks",
  "tests/vehicle/test_behavior.py checks a single stop before an obstacle",
  ["highway_env/vehicle/behavior.py"],
  [("longitudinal model", "IDMVehicle.acceleration, desired_gap, LinearVehicle.acceleration_features"), ("decision", "IDMVehicle.act"),
   ("random behaviour", "LinearVehicle.randomize_behavior")],
  ["vehicle.acceleration", "vehicle.action"],
  """Drivers.tla evaluates the models in fixed point on every recorded decision, choosing the leader itself; MCDrivers checks them on
  a grid (monotone, free, behind a leader) and MCFollow every sequence of leader decisions every two seconds: no collision.""")

P("C17", "Simulated drivers change lanes when MOBIL recommends it, and only then",
  """When its timer exceeds LANE_CHANGE_DELAY, a driver following its lane resets the timer and moves its target to a lane beside it that can be reached
  (not forbidden, at two widths at most) when the new follower would not have to brake by more than LANE_CHANGE_MAX_BRAKING_IMPOSED and the
  acceleration gained, plus POLITENESS times that of the followers, is at least LANE_CHANGE_MIN_ACC_GAIN; if its route prefers a lane of the road
  (other than 0), it moves exactly towards this lane, unless this imposes unsafe braking on itself or on the new follower.
  Otherwise the target lane is kept, except that a driver already changing gives way, back to its own lane, to another one changing to the
  same lane ahead of it within its desired gap; crashed drivers and those told not to never change lanes.
  The timer advances with time, starts at (x + y) pi modulo the delay unless given, and is reset by decisions only.""",
  ["inputs", "histories", "schedules"],
  "all classes of drivers, parameters, routes and traffic scenes, including lane changes under way",
  "no existing test covers lane changes of simulated drivers",
  ["highway_env/vehicle/behavior.py", "highway_env/road/road.py"],
  [("decision", "IDMVehicle.change_lane_policy, mobil"), ("neighbours", "Road.neighbour_vehicles")],
  ["vehicle.target_lane_index", "vehicle.timer"],
  """Each recorded decision is recomputed by Drivers.tla, neighbours included; decisions closer to a threshold than the fixed point can tell
  are left out (and counted).  MCDrivers checks on a grid of scenes that recommended changes are safe and advantageous.""")

P("C18", "Intersections are regulated: who yields to whom, when, and for how long",
  """On regulated roads priorities are enforced twice per simulated second (every int(1/dt/2) frames, at least every frame), before the vehicles move.
  Two vehicles are in conflict when, at one of the times 0.25, 0.5, ... 2.75 s, their predicted bodies (constant speed along the centre of the planned
  route; one and a half times their length, nine tenths of their width) overlap with centres at most a length apart.
  Of each conflicting pair the vehicle on the lane of lower priority yields, and at equal priorities the one behind (the one for which the other is further
  ahead); this has an effect on simulated drivers only, never on agents: they aim at a null speed, are marked as yielding and their timer restarts.
  A yielding driver whose timer has reached YIELD_DURATION (in enforcements) is released, aiming at the speed limit of its lane and unmarked, unless told to
  yield again at once; until then its timer counts enforcements.
  Nothing else changes.  Lanes through the intersection have the documented priorities (3 on the horizontal road, 1 on the vertical one, one less for left turns).""",
  ["inputs", "histories", "configurations"],
  "all vehicles, routes and poses around the intersection, agents included, durations of yielding, and simulation frequencies",
  "no existing test covers the regulation of roads",
  ["highway_env/road/regulation.py", "highway_env/vehicle/controller.py", "highway_env/envs/intersection_env.py"],
  [("schedule", "RegulatedRoad.step"), ("conflicts and priorities", "RegulatedRoad.enforce_road_rules, respect_priorities, is_conflict_possible"),
   ("prediction", "ControlledVehicle.predict_trajectory_constant_speed")],
  ["road.step", "vehicle.is_yielding", "vehicle.target_speed"],
  """MCRegulation checks for all conflicts among three vehicles that yielding is justified, someone always goes, and nobody waits longer than required.
  TLC judges each recorded enforcement: it decides the conflicts itself from predicted poses (verified by the specification on a sample) with the separating
  axis test; pairs that 5 mm could decide may go either way.""")

P("C19", "Traffic of intersections: arrivals with room, departures, challenger, calm start",
  """At most one driver arrives per decision step, with the configured probability, 5 m (standard deviation 1) along a random entrance, in its middle and direction,
  at 8 m/s (standard deviation 1), and only if no vehicle is within 15 m; it has a route to another branch and random behaviour parameters of its own.
  After each step drivers within 20 m of the end of an exit, or without a route, are gone, and nobody else; agents are never removed.
  An episode starts with drivers tried with probability 0.6 at evenly spaced places of the entrances, three simulated seconds, then one challenger 65 m along
  an entrance who goes straight, subject to the same room; agent number i then starts on entrance i modulo 4, around 60 m, at 10 m/s with
  allowed speeds 0, 4.5 and 9, with a route to the configured or a random destination, and no driver is left within 20 m of it.""",
  ["histories", "configurations", "inputs"],
  "all seeds, spawn probabilities, numbers of vehicles and agents, destinations, frequencies, and traffic situations",
  "no existing test looks at the traffic of the intersection",
  ["highway_env/envs/intersection_env.py"],
  [("arrivals", "IntersectionEnv._spawn_vehicle"), ("departures", "IntersectionEnv._clear_vehicles"), ("start", "IntersectionEnv._make_vehicles")],
  ["env.reset", "env.step", "env.road.vehicles"],
  """MCPopulation checks on an abstract arm that arrivals keep their distance and the end stays clear.  A vehicle class of the harness notes who was on the
  road when each driver was made; TLC judges each attempt, reset and step.  Probabilities are judged within five standard errors.""")

P("C27", "Every episode starts from the documented scene of its task",
  """Resets produce, whatever happened before, as many agents as configured, all of them on the road, and: on the highway, the agents (25 m/s, on the configured lane if any) then the configured number of drivers (23 to
  25 m/s), each on a random lane in front of all previous ones by 0.9 to 1.1 times 1.5 s at its speed, times the spacing (or inverse density), times
  exp(-lanes/6), three times more before the first; the five documented vehicles and the obstacle at the end of the ramp in merge; three drivers ahead and two
  oncoming ones who never change lanes on the two-way road; four drivers with random destinations around and before the roundabout; a goal on one of
  30 spots facing outwards in parking; a busy lot with parked and driving vehicles (none within 20 m of the agent) and a goal on either side in summon;
  one vehicle at 4 m of the first lane in lane keeping.
  Random places and speeds have the documented means and deviations, everybody starts on a lane known as the closest, intact, with valid routes.""",
  ["histories", "configurations", "inputs"],
  "all tasks, seeds and scene configurations (lanes, vehicles, density, spacing, agents, initial lane, destinations), first and later episodes",
  "tests only check that environments can be made and reset",
  ["highway_env/envs", "highway_env/vehicle/kinematics.py", "highway_env/road/objects.py"],
  [("scenes", "_make_vehicles, _create_vehicles of each environment"), ("random vehicles", "Vehicle.create_random, make_on_lane")],
  ["env.reset", "env.road.vehicles", "env.road.objects"],
  """Scenes.tla lists the slots of each scene (or the placement process, model checked: increasing places, nobody overlaps) and TLC matches recorded scenes with
  them; spreads of random draws are judged within five standard errors.  The intersection is judged by C19.""")

P("C29", "Predicted trajectories are what would happen: constant speed, or given actions",
  """The trajectory predicted at constant speed is, at each requested time, the place and heading of the centre of the planned route (of the lane followed when there
  is none) at the present coordinate of the vehicle plus speed times time, beyond the end of the first road on the next ones, and beyond the
  last one in its prolongation; it starts from where the vehicle is, also when its route already goes on with the next road, and on the lane closest in number
  to its own where the route leaves it unspecified.
  The trajectory predicted for a sequence of meta-actions consists of exactly the states, saved every (timestep / dt) frames (every frame when this is less than one), that the vehicle goes through by
  taking each action once and then deciding and moving int(duration / dt) times.
  Predicting changes nothing: neither the vehicle, nor others, nor random generators.""",
  ["inputs", "histories"],
  "all networks, routes (specified or not), poses, speeds, times, and sequences of actions, durations and time steps",
  "no existing test covers these predictions",
  ["highway_env/vehicle/controller.py", "highway_env/road/road.py"],
  [("constant speed", "ControlledVehicle.predict_trajectory_constant_speed, RoadNetwork.position_heading_along_route"), ("actions", "MDPVehicle.predict_trajectory")],
  ["vehicle.predict_trajectory", "vehicle.predict_trajectory_constant_speed"],
  """Prediction.tla gives the schedule of operations of a rollout (model checked: right states at right times) and places along routes (model checked to be
  continuous); TLC judges recorded predictions on random chains of roads and in the tasks, and compares rollouts with the same operations done by hand.""")

P("C21", "Goal tasks: rewards can be recomputed for any goal, success is being there",
  """In parking and summon, the achieved goal and the observation are the place, velocity and direction of the agent divided by the configured scales, the desired goal
  those of the landmark, which does not change during an episode.
  compute_reward(achieved, desired, info) is minus the p-th power (p = 1/2 by default) of the distance |x| + 0.3 |y| + 0.02 |cos| + 0.02 |sin| of the two vectors, for
  every pair of goals (so that experience can be relabelled), and for batches of them row by row, less 5 in summon while the agent is crashed; it changes nothing.
  The reward of a step is the sum over the agents of compute_reward on the returned observations, and info["is_success"] tells, for each agent, whether this reward
  exceeds -0.12.""",
  ["inputs", "histories", "configurations"],
  "all pairs of goals, reached or not, batches, powers, scales, numbers of agents, poses and collisions",
  "tests only step the environments",
  ["highway_env/envs/parking_env.py", "highway_env/envs/summon_env.py", "highway_env/envs/common/observation.py"],
  [("reward", "ParkingEnv.compute_reward, SummonEnv.compute_reward"), ("success", "ParkingEnv._is_success, step"), ("goals", "KinematicsGoalObservation.observe")],
  ["env.step", "env.compute_reward", "info['is_success']"],
  """Goal.tla defines distance, reward and success (model checked: a weighted distance, coming closer pays, success means being within 1.44 m of the goal); TLC
  judges recorded observations, rewards (the square of the reward is the distance) and successes, agents being put around the goal.""")

P("C24", "Environments abstract into the documented finite decision process",
  """The finite process of an environment has one state for each allowed speed, lane and time of its time-to-collision grid, its present state being the present
  speed index and lane at time 0.  Every action advances time by one quantum; left and right move by one lane at any time, faster and slower by one speed at the first
  time only; moves out of the grid stay at its border.
  States are terminal at the horizon and where a collision is certain.  Rewards are the collision reward times the danger of the cell, plus shares of the rewards
  of right lanes and high speeds.  Building the process changes nothing.""",
  ["inputs", "configurations"],
  "all grid shapes, cells and actions, scenes, allowed speeds, quanta and horizons",
  "no existing test covers it (the optional package is not installed)",
  ["highway_env/envs/common/finite_mdp.py", "highway_env/envs/common/abstract.py"],
  [("transitions", "transition_model, clip_position"), ("process", "finite_mdp, AbstractEnv.to_finite_mdp")],
  ["env.to_finite_mdp"],
  """FiniteMdp.tla defines the process (model checked: the horizon is always reached, one speed change, ...); TLC compares it with the transition tables of all grids up to
  4 x 4 x 6 (6 x 6 x 12 in thorough) and whole processes built from scenes.  The optional finite_mdp package, absent here, is replaced by a recorder.""")


P("C31", "Tasks have the documented roads and default settings, and keep given ones",
  """Each task is played on its documented road network: its lanes, with their places, lengths, widths, speed limits, priorities and lanes closed to changes, in every
  episode and for every number of lanes.  Its configuration contains the documented values, except for the settings given at creation or with configure, which do not
  change any other setting, nor other environments; registered names stand for the documented task and settings.""",
  ["configurations", "histories"],
  "all tasks, registered names, given settings, numbers of lanes and episodes",
  "tests create each environment and step it",
  ["highway_env/envs", "highway_env/road/road.py", "highway_env/road/lane.py"],
  [("roads", "_make_road of the tasks"), ("settings", "default_config, configure, register")],
  ["env.road.network.graph", "env.config"],
  """Networks.tla defines the networks (model checked: lanes join, names are unique, crossings are symmetric, lengths fit) and Defaults.tla the settings; TLC compares
  both with those of created environments: five places of each lane, and all settings.""")


P("C20", "Lane keeping: true states up to bounded noise, the lane to follow; linear model",
  """In the lane keeping task, the observation holds the asked attributes of the moment at which the action is applied: the state (y, heading, lateral speed, rotation) and
  its derivative, which is how it changes in the next frame, each up to a noise within the configured bounds that never affects the motion itself; and the reference
  state on the lane to follow: the first lane until the vehicle has left it, then the second for ever.  The true state before every decision is recorded, with the bounds, at
  that time, of a predictor that is run along.
  The linear dynamics of bicycle vehicles (lateral, and full) are those of the documented model for small slips, with low-speed damping disabled.""",
  ["inputs", "histories", "configurations"],
  "all actions, poses, speeds, configured noises, attributes and frequencies",
  "one test steps the environment",
  ["highway_env/envs/lane_keeping_env.py", "highway_env/vehicle/dynamics.py", "highway_env/envs/common/observation.py"],
  [("task", "LaneKeepingEnv.step, state, derivative, reference_state"), ("linear model", "BicycleVehicle.derivative_linear, full_lateral_lpv_dynamics")],
  ["env.step", "vehicle.derivative_linear", "vehicle.full_lateral_lpv_dynamics"],
  """LaneKeeping.tla defines lanes, coordinates and which one is followed (model checked over drives: the first exit decides), Motion.tla the dynamics (model checked
  to settle on the right curve); TLC judges recorded episodes and linear models.""")


P("C25", "Interval arithmetic and predictors contain every possible value, tightly",
  """The product of intervals contains all products of their elements, and is the smallest such interval unless both may have any sign; scaling by matrices, differences,
  negative parts, sections along directions, and conversions of boxes between coordinates and straight lanes are exact.  Matrix polytopes have the matrix of the
  mean parameters as centre and the corners of the parameter box as vertices.
  Interval predictors of linear parameter-varying systems contain, at all times, the state of every system within the polytope, under every perturbation within
  the bounds, and whatever known control is set at each step (also for systems stabilised by a feedback), in the original coordinates (also when these are changed for a cooperative system, or when that is impossible), and are exact when all is certain;
  changing coordinates back and forth loses nothing and leaves arguments unchanged.""",
  ["inputs", "histories"],
  "all intervals, matrices, directions, lanes, systems, perturbations, inputs, centres and time steps",
  "tests follow the prediction of one vehicle for two seconds",
  ["highway_env/interval.py"],
  [("arithmetic", "intervals_product, intervals_scaling, intervals_diff, ..."), ("predictors", "LPV.step, change_coordinates"), ("polytope", "polytope")],
  ["highway_env.interval"],
  """Intervals.tla defines operations and predictors, model checked to be sound and tight on all intervals of small integers, and to contain the system after one step from
  any box (hence, by induction, for ever); TLC compares recorded operations exactly, and checks that recorded predictions contain an adversarial system.""")


P("C23", "Images show the present state and rendering leaves environments alone",
  """An image rendered offscreen has the configured size and shows the present state of the environment, whatever was rendered, stepped, reset, copied or closed before: every
  pixel within a vehicle, obstacle or landmark has the colour of the one drawn last there (kind of driver, crashed or hit), placed in a window centred as configured on the
  agent and scaled as configured and by the keys; sides of lanes are marked as their line types say, and all else is ground; recent trajectories are shown when asked for, at any simulation frequency.
  Grayscale observations stack the last images (columns first, weighted as configured).  Rendering, in any mode and at any time, changes neither the state nor the future
  of the environment; keys drive as documented, also in windows; a user who closes the window ends the episode.  What an agent displays appears next to the road (below it, or
  beside it when the window is not wider than high), in windows that are configured so, and what it draws on the road appears there.""",
  ["histories", "inputs", "configurations"],
  "all scenes, screens, scalings, centrings, and orders of rendering, stepping, resetting, copying and closing",
  "tests check the shape of one image of two tasks",
  ["highway_env/envs/common/graphics.py", "highway_env/road/graphics.py", "highway_env/vehicle/graphics.py", "highway_env/envs/common/observation.py",
   "highway_env/envs/common/abstract.py"],
  [("when", "AbstractEnv.render, _simulate, reset, close, __deepcopy__"), ("window", "EnvViewer, WorldSurface"), ("content", "VehicleGraphics, LaneGraphics, RoadObjectGraphics"),
   ("grayscale", "GrayscaleObservation"), ("keys", "EventHandler, WorldSurface.handle_event")],
  ["env.render", "env.viewer.get_image", "env.reset, env.step (observations)"],
  """Rendering.tla defines what pixels show and when images are drawn again (model checked over all orders of operations: images are never stale); TLC judges sampled pixels of
  recorded images; positions within 4 pixels of a border are not judged.""")


P("C30", "Watching drivers: estimated parameters and possible routes",
  """The estimated parameter of a driver is the regularised least squares solution of the collected data, within the parameter box; the confidence radius is that of the documented
  level, and grows with the data; the true parameter of a driver with bounded noise is within the confidence ellipsoid, which the polytope encloses closely unless the box cuts
  it; a further observation is accepted if and only if it is within the confidence bounds; neither changes the data.  The dynamics of an estimated vehicle are those of these
  parameters.
  The possible routes of a watched vehicle are those that it may take at the next intersection (existing lanes of connected roads), stepped as it goes, and dropped
  only when its behaviour contradicts them: the one that it follows is kept.  The data collected for each are the features of this route and the real commands.  A copy that is
  supposed to follow one of them starts with its route, lane and data, in the same state.  Watching changes nothing: the vehicle drives as if it were not watched.""",
  ["inputs", "histories"],
  "all data sets, boxes, networks, routes, changes of route, and traffic",
  "tests estimate nothing",
  ["highway_env/vehicle/uncertainty/estimation.py", "highway_env/utils.py", "highway_env/vehicle/controller.py", "highway_env/vehicle/behavior.py"],
  [("regression", "confidence_ellipsoid, confidence_polytope"), ("consistency", "is_consistent_dataset, is_valid_observation"),
   ("hypotheses", "MultipleModelVehicle.update_possible_routes, ControlledVehicle.get_routes_at_intersection"), ("assumption", "MultipleModelVehicle.assume_model_is_valid")],
  ["highway_env.utils", "MultipleModelVehicle.data", "RegressionVehicle"],
  """Estimation.tla defines regression on integers (exact Gram matrices) and the sets of hypotheses, model checked on all routes of a network (the true one is never lost); TLC
  judges recorded estimates, consistency verdicts, and every update of hypotheses in recorded traffic.""")


P("C26", "Uncertain drivers: bounds hold every possible driver, collisions are worst-case",
  """The bounds of a driver with uncertain parameters start certain, at its present state, of its own.  After a step of the observer from any box of states, on straight
  lanes and forwards, they hold the next state of every linear driver whose state, parameters (of acceleration and steering) and vehicle ahead are within their bounds, and are
  those of interval arithmetic on the documented features (approach of the target speed, slower vehicle ahead, room left, heading and position relative to
  the lane, limited acceleration) and noise (1 m/s in position, 1 rad/s in heading), whatever the direction of the road.  The step by ends is that of the lower and
  upper ends of the box, separately.  Predicted bounds hold the linear driver of any parameters in the box, under any noise (1 m/s along, 0.5 m/s across), also after changes of lane,
  in absolute coordinates and headings.  Meanwhile the vehicle itself drives as a linear driver would, its past states and bounds are recorded once per step, and its bounds are
  certain again once it crashed.  Followed lanes are the targeted one, its side lanes, or the one on the right when it can be reached.
  An agent with meta-actions collides with it if and only if it overlaps the vehicle placed at the nearest place of its bounds; both then have the lower speed.
  Neither changes other vehicles.""",
  ["inputs", "histories"],
  "all roads, boxes of states and parameters, traffic, noise, changes of lane and time steps",
  "two tests follow the bounds of one vehicle on an empty road along the x axis for two seconds",
  ["highway_env/vehicle/uncertainty/prediction.py", "highway_env/interval.py", "highway_env/vehicle/behavior.py"],
  [("observer", "IntervalVehicle.observer_step, partial_observer_step"), ("predictor", "IntervalVehicle.predictor_step, predictor_init"),
   ("collisions", "IntervalVehicle.check_collision"), ("records", "IntervalVehicle.step, store_trajectories")],
  ["vehicle.interval", "vehicle.trajectory", "vehicle.check_collision"],
  """Members.tla defines the members of a box and the bounds after a step; TLC checks exhaustively, over a grid of boxes and drivers, that the latter hold the former; TLC judges recorded
  steps, with members drawn within recorded boxes, and follows drivers through recorded predictions.  Drivers who drive backwards and bounds of headings more than a quarter
  turn from the lane are not judged.""")


P("C28", "Controlled vehicles reach their target lane and speed, and keep them",
  """A vehicle under the low-level control that keeps its target lane and target speed drives there and stays.  Its speed approaches the target speed
  by the same fraction of the difference (frame / 0.6 s) every frame, and never passes it.  On a straight lane, from offsets up to 9 m and 4 to 34 m/s, it
  reaches the centre of the lane and its direction within 7.5 s (9 s when it starts facing away from it), up to 2 cm and 5 mrad, passes the centre by less than an eighth of its
  offset and 20 cm when it starts in the direction of the lane, and drives forward.  On a circular lane it settles on the steady offset of its speed (less than 1.1 m at up to 15 m/s on 20 m).  On
  the way, it follows the documented cascade - offset to wanted direction (at most 45 degrees), direction to turning rate, rate to wheels (at most 60
  degrees), wheels to motion - at any number of frames per second, for any direction of the road, on the side of the lane as on the other, and whatever the number of lane changes and speed
  changes before; the steering that it decides is the one that it drives with.""",
  ["histories", "inputs"],
  "all starts, targets, roads, frames per second, sequences of commands",
  "one test follows a lane change for some seconds and looks at the final lane; another the speed",
  ["highway_env/vehicle/controller.py", "highway_env/vehicle/kinematics.py", "highway_env/road/lane.py"],
  [("cascade", "ControlledVehicle.steering_control, speed_control"), ("decision", "ControlledVehicle.act, follow_road; Road.act, Road.step"), ("motion", "Vehicle.step")],
  ["vehicle.position, heading, speed", "target_lane_index, target_speed"],
  """Tracking.tla is the closed loop in the coordinates of a straight or circular lane; TLC runs it from a grid of starts until it settles, at several frame rates (settling, overshoot, bounds),
  and runs it along recorded drives (up to 300 frames from the recorded start only), which have to stay within centimetres of it.  Sine lanes and speeds below 2 m/s are
  not judged.""")


P("C32", "Helpers of geometry and numbers are right for all their arguments",
  """A point is in a rectangle if and only if it is between its sides, border included; in a rotated one (centre, length, width, angle of the length) likewise in the frame
  of the rectangle, for any angle; in an ellipse (centre, angle of the main axis, extents from the centre along it and to its side) if and only if it is strictly inside, for any angle.  An angle wrapped to [-pi, pi] is
  the same direction.  The linear map of one range to another takes its ends to the ends and is linear in between and beyond, for numbers and arrays, rising or falling.
  not_zero leaves what is larger than eps (default 0.01), and otherwise gives eps on the same side of zero.  constrain clips into a range; do_every tells that a
  timer exceeds a duration; class_from_path gives the class of a path.""",
  ["inputs"],
  "all points, shapes, angles, ranges and numbers",
  "one test intersects a few rectangles",
  ["highway_env/utils.py"],
  [("shapes", "utils.point_in_rectangle, point_in_rotated_rectangle, point_in_ellipse"), ("numbers", "utils.lmap, wrap_to_pi, not_zero, constrain, do_every")],
  ["returned values"],
  """Helpers.tla works with integers and Pythagorean directions, where the answers are exact; TLC checks its laws (turns, inscribed shapes, ranges) exhaustively on a grid, and judges
  thousands of recorded calls.  Points exactly on the border of a shape that is not along the axes are not judged.""")
