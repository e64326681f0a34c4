"""Planted bugs: each breaks one property while building and passing the existing tests (see plant.py)."""
A = "highway_env/envs/common/abstract.py"
BUGS = []


def B(id, property, edits, needs, breaks, demo):
    BUGS.append({"id": id, "property": property, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


HEAD = '''
import copy
import logging
import os
os.environ["SDL_VIDEODRIVER"] = "dummy"
import gym
import numpy as np
import highway_env
from highway_env import utils
logging.disable(logging.WARNING)


def make(kind, config=None, seed=0):
    env = gym.make(kind).unwrapped
    env.config.update(config or {})
    env.seed(seed)
    env.reset()
    return env
'''

B("c01-reset-keeps-frames", "C01", [(A, "self.time = self.steps = 0\n        self.done = False\n        self._reset()",
                                     "self.steps = 0\n        self.done = False\n        self._reset()")],
  "an episode that ends in the middle of a decision step, followed by a reset and another episode",
  "The frame counter survives a reset: after an episode that ended mid-step, actions are applied late in every step.",
  HEAD + '''
env = make("highway-v0", {"duration": 2, "vehicles_count": 1})
env.step(1)
_, _, done, _ = env.step(1)
assert done
env.reset()
assert env.time == 0
env.vehicle.target_speed = env.vehicle.speed = 20
env.step(3)
assert env.vehicle.target_speed == 25 and env.vehicle.speed > 22, env.vehicle.speed
''')

B("c02-only-first-agent-crash", "C02", [("highway_env/envs/intersection_env.py",
                                         "return any(vehicle.crashed for vehicle in self.controlled_vehicles) \\\n",
                                         "return self.vehicle.crashed \\\n")],
  "several agents, one crash that does not involve the first agent",
  "The multi-agent intersection goes on after the crash of an agent other than the first.",
  HEAD + '''
env = make("intersection-multi-agent-v0", {"initial_vehicle_count": 1, "spawn_probability": 0})
for v in list(env.road.vehicles):
    if v not in env.controlled_vehicles:
        env.road.vehicles.remove(v)
env.controlled_vehicles[1].crashed = True
_, _, done, info = env.step((1, 1))
assert info["agents_dones"] == (False, True)
assert done
''')

B("c03-normalised-by-default-penalty", "C03", [("highway_env/envs/intersection_env.py",
                                                'utils.lmap(reward, [self.config["collision_reward"], self.ARRIVED_REWARD], [0, 1])',
                                                'utils.lmap(reward, [self.COLLISION_REWARD, self.ARRIVED_REWARD], [0, 1])')],
  "normalised rewards together with a configured collision reward",
  "With a configured collision reward, the normalised reward of the intersection is computed from the default one and leaves [0, 1].",
  HEAD + '''
env = make("intersection-v0", {"normalize_reward": True, "collision_reward": -20, "initial_vehicle_count": 1})
env.vehicle.crashed = True
_, reward, done, _ = env.step(1)
assert done and 0 <= reward <= 1, reward
''')

B("c05-sorted-by-signed-distance", "C05", [("highway_env/road/road.py",
                                            "key=lambda v: abs(vehicle.lane_distance_to(v)))",
                                            "key=lambda v: vehicle.lane_distance_to(v))")],
  "vehicles behind being observed (or one less than ten metres behind)",
  "Vehicles are sorted by signed distance: those behind displace closer ones ahead.",
  HEAD + '''
from highway_env.vehicle.behavior import IDMVehicle
env = make("highway-v0", {"vehicles_count": 1, "observation": {"type": "Kinematics", "see_behind": True, "vehicles_count": 2}})
ego = env.vehicle
ego.position = np.array([500., 0.])
ego.on_state_update()
env.road.vehicles = [ego, IDMVehicle(env.road, [400., 4.], 0, 20), IDMVehicle(env.road, [520., 4.], 0, 20)]
obs = env.observation_type.observe()
assert abs(obs[1][1] * 150 - 20) < 0.01, obs
''')

B("c06-grid-of-the-first-agent", "C06", [("highway_env/envs/common/observation.py",
                                "[v.to_dict(self.observer_vehicle) for v in self.env.road.vehicles])",
                                "[v.to_dict(self.env.vehicle) for v in self.env.road.vehicles])")],
  "several agents observing occupancy grids",
  "All agents get the occupancy grid around the first one.",
  HEAD + '''
grid = {"type": "OccupancyGrid", "grid_size": [[-20, 20], [-20, 20]], "grid_step": [5, 5]}
env = make("intersection-multi-agent-v0", {"observation": {"type": "MultiAgentObservation", "observation_config": grid}, "initial_vehicle_count": 1})
first, second = env.controlled_vehicles
env.road.vehicles = [first, second]
first.position = second.position + np.array([12., 0.])
obs = env.observation_type.observe()
assert obs[0][0].sum() == 2 and obs[1][0].sum() == 2, obs
assert obs[0][0][4][1] == 1 and obs[1][0][4][6] == 1, obs
''')

B("c07-ceil-lost", "C07", [("highway_env/envs/common/finite_mdp.py",
                            "other_projected_speed = other.speed * np.dot(other.direction, vehicle.direction)",
                            "other_projected_speed = np.dot(other.velocity, vehicle.lane.direction) if hasattr(vehicle.lane, 'start_phase') else other.speed * np.dot(other.direction, vehicle.direction)".replace("vehicle.lane.direction", "np.array([vehicle.lane.direction, 0])"))],
  "an observer on a circular lane",
  "On circular lanes, the speeds of other vehicles are projected on the x axis.",
  HEAD + '''
from highway_env.envs.common.finite_mdp import compute_ttc_grid
from highway_env.vehicle.controller import MDPVehicle
env = make("roundabout-v0")
net = env.road.network
index = ("se", "ex", 0)
lane = net.get_lane(index)
ego = MDPVehicle(env.road, lane.position(1, 0), lane.heading_at(1), 8)
other = MDPVehicle(env.road, lane.position(9, 0), lane.heading_at(1), 8)
other.heading, other.speed = ego.heading, 6.
ego.SPEED_MIN, ego.SPEED_MAX, ego.SPEED_COUNT = 8, 24, 3
env.road.vehicles = [ego, other]
env.vehicle = ego
grid = compute_ttc_grid(env, 1., 10., ego)
assert grid[0, 0, 4] == 1, grid[0]
''')

B("c08-global-randomness", "C08", [("highway_env/vehicle/controller.py",
                                    "position=self.position,\n                                                                 np_random=self.road.np_random)",
                                    "position=self.position)")],
  "vehicles without a route (or whose route ended) reaching a branching of the road",
  "The road followed at a branching is drawn from the global random generator.",
  HEAD + '''
from highway_env.vehicle.controller import ControlledVehicle


def choices(global_seed):
    env = make("intersection-v0", seed=3)
    lane = env.road.network.get_lane(("o0", "ir0", 0))
    np.random.seed(global_seed)
    result = []
    for _ in range(30):
        v = ControlledVehicle(env.road, lane.position(lane.length, 0), lane.heading_at(0), 5)
        v.target_lane_index = ("o0", "ir0", 0)
        v.follow_road()
        result.append(v.target_lane_index)
    return result


assert choices(1) == choices(2)
''')

B("c09-shared-config", "C09", [(A, "                setattr(result, k, copy.deepcopy(v, memo))\n",
                                "                setattr(result, k, copy.deepcopy(v, memo) if k != 'config' else v.copy())\n")],
  "a nested setting (observation or action) of a copy edited in place, and a reset of the original",
  "Copies of an environment share the nested settings of its configuration.",
  HEAD + '''
env = make("highway-v0")
twin = copy.deepcopy(env)
twin.config["observation"]["vehicles_count"] = 2
assert env.reset().shape == (5, 5)
''')

B("c10-ego-speeds-on-class", "C10", [("highway_env/envs/intersection_env.py", "ego_vehicle.SPEED_MIN = 0",
                                      "type(ego_vehicle).SPEED_MIN = 0")],
  "another environment with meta-actions being used after an intersection was created",
  "Creating an intersection changes the lowest allowed speed of the ego-vehicles of all environments.",
  HEAD + '''
from highway_env.vehicle.controller import MDPVehicle
before = make("highway-v0").vehicle.index_to_speed(0)
make("intersection-v0")
assert make("highway-v0").vehicle.index_to_speed(0) == before
assert MDPVehicle.SPEED_MIN == 20
''')

B("c11-precheck-too-small", "C11", [("highway_env/vehicle/kinematics.py",
                                     "if np.linalg.norm(other.position - self.position) > self.LENGTH:",
                                     "if np.linalg.norm(other.position - self.position) > 0.9*self.LENGTH:")],
  "two vehicles that touch by their corners only, on a diagonal",
  "Overlaps of corners, with centres between 4.5 and 4.85 m apart, are no longer detected.",
  HEAD + '''
from highway_env.vehicle.kinematics import Vehicle
env = make("highway-v0", {"vehicles_count": 1})
a = Vehicle(env.road, [100., 0.], 0, 0)
b = Vehicle(env.road, [104.4, 1.7], 0, 0)
env.road.vehicles = [a, b]
env.road.step(1 / 15)
assert a.crashed and b.crashed
''')

B("c12-reverse-is-slow", "C12", [("highway_env/vehicle/dynamics.py",
                                  "if abs(self.speed) < 1:", "if self.speed < 1:")],
  "a dynamical vehicle driving backwards faster than 1 m/s",
  "Dynamical vehicles in reverse follow the low-speed dynamics at every speed.",
  HEAD + '''
from highway_env.vehicle.dynamics import BicycleVehicle
env = make("highway-v0", {"vehicles_count": 1})
v = BicycleVehicle(env.road, [100., 0.], 0, -5.)
v.act({"steering": 0.1, "acceleration": 0})
v.step(0.01)
assert abs(v.yaw_rate) > 1e-3, v.yaw_rate
''')

B("c13-faster-from-target", "C13", [("highway_env/vehicle/controller.py",
                                     "self.speed_index = self.speed_to_index(self.speed) + 1",
                                     "self.speed_index = self.speed_index + 1")],
  "two consecutive accelerations (or one after a slowdown caused otherwise), before the target speed is reached",
  "Going faster raises the previous target speed rather than the speed next to the present one.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 1})
ego = env.vehicle
ego.SPEED_MIN, ego.SPEED_MAX, ego.SPEED_COUNT = 0, 40, 5
ego.speed = 10.
ego.act("FASTER")
ego.act("FASTER")
assert ego.target_speed == 20, ego.target_speed
''')

B("c14-fewer-roads-ahead", "C14", [("highway_env/vehicle/controller.py",
                                    "for index in range(min(len(self.route), 3)):",
                                    "for index in range(min(len(self.route), 2)):")],
  "a route with exactly two roads before the next intersection",
  "Intersections behind two more roads are no longer found among the alternative routes.",
  HEAD + '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.vehicle.controller import ControlledVehicle
net = RoadNetwork()
for i, (a, b) in enumerate([("a", "b"), ("b", "c"), ("c", "d")]):
    net.add_lane(a, b, StraightLane([100 * i, 0], [100 * i + 100, 0]))
net.add_lane("d", "e", StraightLane([300, 0], [400, 100]))
net.add_lane("d", "f", StraightLane([300, 0], [400, -100]))
road = Road(net, np_random=np.random.RandomState(0))
v = ControlledVehicle(road, [10., 0.], 0, 10).plan_route_to("e")
assert len(v.get_routes_at_intersection()) == 2, v.get_routes_at_intersection()
''')

B("c15-sine-heading-phase", "C15", [("highway_env/road/lane.py",
                                     "self.amplitude * self.pulsation * np.cos(self.pulsation * longitudinal + self.phase))",
                                     "self.amplitude * self.pulsation * np.cos(self.pulsation * longitudinal) * np.cos(self.phase))")],
  "a sinusoidal lane whose phase is not a multiple of pi",
  "The heading of sinusoidal lanes ignores the quadrature part of the phase.",
  HEAD + '''
from highway_env.road.lane import SineLane
lane = SineLane([0, 0], [100, 0], 3, 2 * np.pi / 50, np.pi / 2)
for s in range(5, 100, 5):
    d = lane.position(s + 1e-4, 0) - lane.position(s - 1e-4, 0)
    assert abs(utils.wrap_to_pi(np.arctan2(d[1], d[0]) - lane.heading_at(s))) < 1e-3, s
''')

B("c16-gap-along-leader", "C16", [("highway_env/vehicle/behavior.py",
                                   "dv = np.dot(ego_vehicle.velocity - front_vehicle.velocity, ego_vehicle.direction) if projected",
                                   "dv = np.dot(ego_vehicle.velocity - front_vehicle.velocity, front_vehicle.direction) if projected")],
  "a leader with another heading than the follower",
  "The approach rate is projected on the direction of the leader.",
  HEAD + '''
from highway_env.vehicle.behavior import IDMVehicle
env = make("highway-v0", {"vehicles_count": 1})
ego = IDMVehicle(env.road, [100., 0.], 0, 20.)
front = IDMVehicle(env.road, [140., 0.], 1.5, 10.)
dv = 20. - 10. * np.cos(1.5)
expected = 10 + 20 * 1.5 + 20 * dv / (2 * np.sqrt(15))
assert abs(ego.desired_gap(ego, front) - expected) < 1e-6
''')

B("c17-polite-to-the-wrong", "C17", [("highway_env/vehicle/behavior.py",
                                      "+ old_following_pred_a - old_following_a)",
                                      "+ old_following_a - old_following_pred_a)")],
  "drivers with a positive politeness and a follower on their lane",
  "Polite drivers count the gain of their present follower as a loss.",
  HEAD + '''
from highway_env.vehicle.behavior import IDMVehicle


class Polite(IDMVehicle):
    POLITENESS = 1.


env = make("highway-v0", {"vehicles_count": 1})
me = Polite(env.road, [100., 4.], 0, 15., target_speed=16.)
slow = IDMVehicle(env.road, [300., 4.], 0, 15.)
follower = IDMVehicle(env.road, [80., 4.], 0, 20., target_speed=30.)
env.road.vehicles = [me, slow, follower]
assert me.mobil(("0", "1", 2))
''')

B("c22-clip-swapped", "C22", [("highway_env/envs/common/action.py",
                               '"acceleration": 0,\n                "steering": utils.lmap(action[0], [-1, 1], self.steering_range)',
                               '"acceleration": 0,\n                "steering": action[0] * self.steering_range[1]')],
  "steering alone being controlled, with a configured range that is not centred",
  "With steering control alone, asymmetric ranges are mapped from their upper end only.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 1, "observation": {"type": "Kinematics"}, "action": {
    "type": "ContinuousAction", "longitudinal": False, "lateral": True, "steering_range": [-0.2, 0.4]}})
env.action_type.act(np.array([-1.]))
assert abs(env.vehicle.action["steering"] + 0.2) < 1e-9, env.vehicle.action
''')

B("c04-lateral-space", "C04", [("highway_env/envs/common/observation.py",
                                "                if self.clip:\n                    df[feature] = np.clip(df[feature], -1, 1)\n",
                                "                if self.clip and f_range is not None and f_range[0] == -f_range[1]:\n                    df[feature] = np.clip(df[feature], -1, 1)\n")],
  "features whose configured range is not centred on zero, with a vehicle outside it",
  "Features with an asymmetric range are not clipped: observations leave the declared space.",
  HEAD + '''
env = make("highway-v0", {"observation": {"type": "Kinematics", "features_range": {"x": [0, 100], "vx": [0, 10], "y": [-1, 3], "vy": [-5, 5]}}})
obs = env.step(1)[0]
assert env.observation_space.contains(obs.astype(np.float32)), obs
''')

B("c18-one-conflict-each", "C18", [("highway_env/road/regulation.py",
                                    "                        yielding_vehicle.yield_timer = 0\n",
                                    "                        yielding_vehicle.yield_timer = 0\n                        break\n")],
  "a vehicle in conflict with several others",
  "Only the first conflict of each vehicle is resolved: a third vehicle does not yield.",
  HEAD + '''
from highway_env.vehicle.behavior import IDMVehicle
env = make("intersection-v0", {"initial_vehicle_count": 1, "spawn_probability": 0})
road = env.road
def driver(a, b, to, s):
    v = IDMVehicle.make_on_lane(road, (a, b, 0), s, speed=8)
    v.plan_route_to(to)
    return v
first = driver("o1", "ir1", "o3", 92)
others = [driver("o0", "ir0", "o2", 92), driver("o2", "ir2", "o0", 92)]
road.vehicles = [first] + others
road.enforce_road_rules()
assert not getattr(first, "is_yielding", False)
assert all(getattr(v, "is_yielding", False) for v in others), [getattr(v, "is_yielding", None) for v in others]
''')

I = "highway_env/envs/intersection_env.py"
B("c19-room-on-the-same-lane", "C19", [(I, "            if np.linalg.norm(v.position - vehicle.position) < 15:\n                return\n",
                                        "            if v.lane_index == vehicle.lane_index and np.linalg.norm(v.position - vehicle.position) < 15:\n                return\n")],
  "an arrival while another vehicle is near the entrance, on another lane",
  "Arriving drivers only keep their distance from vehicles on their own lane.",
  HEAD + '''
from highway_env.vehicle.behavior import IDMVehicle
env = make("intersection-v0", {"initial_vehicle_count": 1, "spawn_probability": 0})
net = env.road.network
env.road.vehicles = [env.vehicle]
for k in range(4):
    lane = ("il%d" % k, "o%d" % k, 0)
    v = IDMVehicle.make_on_lane(env.road, lane, net.get_lane(lane).length - 5, speed=8)
    env.road.vehicles.append(v)
assert [v.lane_index[0][:2] for v in env.road.vehicles[1:]] == ["il"] * 4
for _ in range(30):
    env._spawn_vehicle(spawn_probability=1)
vs = env.road.vehicles
for i, v in enumerate(vs[5:]):
    assert min(np.linalg.norm(v.position - o.position) for o in vs[:5 + i]) >= 15
''')

B("c19-only-first-agent-stays", "C19", [(I, "vehicle in self.controlled_vehicles or not (is_leaving(vehicle)",
                                         "vehicle is self.vehicle or not (is_leaving(vehicle)")],
  "several agents, another one than the first reaching the end of an exit while the first one has not arrived",
  "Agents other than the first are removed from the road at the end of an exit.",
  HEAD + '''
env = make("intersection-multi-agent-v0", {"initial_vehicle_count": 1, "spawn_probability": 0})
second = env.controlled_vehicles[1]
lane = env.road.network.get_lane(("il3", "o3", 0))
second.position, second.heading = lane.position(85, 0), lane.heading_at(85)
second.on_state_update()
second.target_lane_index = second.lane_index
env.road.vehicles = list(env.controlled_vehicles)
env.step((1, 1))
assert second in env.road.vehicles
''')

B("c27-lane-zero-is-none", "C27", [("highway_env/vehicle/kinematics.py",
                                    "_id = lane_id if lane_id is not None else road.np_random.choice(len(road.network.graph[_from][_to]))",
                                    "_id = lane_id or road.np_random.choice(len(road.network.graph[_from][_to]))")],
  "agents configured to start on the first lane",
  "Agents configured to start on lane 0 start on a random one.",
  HEAD + '''
for seed in range(8):
    env = make("highway-v0", {"initial_lane_id": 0, "vehicles_count": 2}, seed)
    assert env.vehicle.lane_index[2] == 0
''')

B("c29-one-road-ahead", "C29", [("highway_env/road/road.py",
                                 "        while len(route) > 1 and longitudinal > self.get_lane(route[0]).length:",
                                 "        if len(route) > 1 and longitudinal > self.get_lane(route[0]).length:")],
  "a planned route whose next road is shorter than the distance to be predicted",
  "Predicted trajectories stay in the prolongation of the next road of the route instead of following the route.",
  HEAD + '''
from highway_env.vehicle.behavior import IDMVehicle
env = make("intersection-v0", {"initial_vehicle_count": 1, "spawn_probability": 0})
v = IDMVehicle.make_on_lane(env.road, ("o0", "ir0", 0), 95, speed=10)
v.plan_route_to("o1")
pos, head = v.predict_trajectory_constant_speed(np.array([3.]))
lanes = [env.road.network.get_lane((a, b, 0)) for a, b, _ in v.route]
s = 95 + 30 - lanes[0].length - lanes[1].length
assert s > 0 and np.linalg.norm(pos[0] - lanes[2].position(s, 0)) < 1e-6
''')

B("c29-shallow-states", "C29", [("highway_env/vehicle/controller.py",
                                 "                    states.append(copy.deepcopy(v))",
                                 "                    states.append(copy.copy(v))")],
  "more than one state being predicted",
  "The states of a predicted trajectory share their position: all are at the end of the trajectory.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 1})
states = env.vehicle.predict_trajectory([1, 1], 1, 0.5, 1 / 15)
xs = [float(s.position[0]) for s in states]
assert all(b - a > 5 for a, b in zip(xs, xs[1:])), xs
''')

LK = "highway_env/envs/lane_keeping_env.py"
B("c20-noise-of-the-state", "C20", [(LK, 'self.np_random.uniform(low=-self.config["derivative_noise"],',
                                     'self.np_random.uniform(low=-self.config["state_noise"],')],
  "bounds of the noise of the state and of the derivative that differ",
  "The noise of observed derivatives exceeds its configured bound when that of states is larger.",
  HEAD + '''
env = make("lane-keeping-v0", {"state_noise": 1, "derivative_noise": 0})
for _ in range(5):
    assert np.allclose(env.derivative, env.vehicle.derivative[[1, 2, 4, 5]])
    env.step(np.array([[0.1]]))
''')

B("c20-reverse-without-tyres", "C20", [("highway_env/vehicle/dynamics.py", "if abs(speed_body_x) < 1:", "if speed_body_x < 1:")],
  "a bicycle vehicle driving backwards",
  "The linear model of a vehicle that drives backwards ignores the tyres, as if it stood still.",
  HEAD + '''
from highway_env.vehicle.dynamics import BicycleVehicle
env = make("lane-keeping-v0")
v = BicycleVehicle(env.road, [0, 0], speed=-5)
a, b = v.lateral_lpv_dynamics()
assert abs(b[0, 0]) > 1 and abs(a[0, 0]) > 1, (a, b)
''')

PK = "highway_env/envs/parking_env.py"
B("c21-batch-total", "C21", [(PK, "-np.power(np.dot(np.abs(achieved_goal - desired_goal), self.REWARD_WEIGHTS), p)",
                              "-np.power(np.sum(np.abs(achieved_goal - desired_goal) * self.REWARD_WEIGHTS), p)")],
  "rewards recomputed for a batch of goals",
  "compute_reward gives one reward for a whole batch of goals.",
  HEAD + '''
env = make("parking-v0")
a = np.arange(12).reshape(2, 6) / 10.
b = np.zeros((2, 6))
r = np.asarray(env.compute_reward(a, b, {}))
assert r.shape == (2,) and np.allclose(r, [env.compute_reward(x, y, {}) for x, y in zip(a, b)]), r
''')

B("c21-penalty-for-others", "C21", [("highway_env/envs/summon_env.py", "self.COLLISION_REWARD * self.vehicle.crashed",
                                     "self.COLLISION_REWARD * any(v.crashed for v in self.road.vehicles)")],
  "other vehicles of the car park that crash into each other",
  "The agent is penalised for the crashes of others.",
  HEAD + '''
env = make("summon-v0")
g = np.array([0.1, 0, 0, 0, 1, 0])
before = env.compute_reward(g, 0 * g, {})
for v in env.road.vehicles:
    if v is not env.vehicle:
        v.crashed = True
assert env.compute_reward(g, 0 * g, {}) == before
''')

B("c23-none-at-the-border", "C23", [("highway_env/road/graphics.py",
                                     "def is_visible(self, vec: PositionType, margin: int = 50)",
                                     "def is_visible(self, vec: PositionType, margin: int = 0)")],
  "a vehicle at the border of the image, with its centre outside",
  "Vehicles whose centre is outside the image are not drawn, though part of them is inside.",
  HEAD + '''
env = make("highway-v0", {"offscreen_rendering": True, "vehicles_count": 0})
from highway_env.vehicle.behavior import IDMVehicle
x = env.vehicle.position[0] + 0.7 * 600 / 5.5 + 1
env.road.vehicles.append(IDMVehicle(env.road, [x, env.vehicle.position[1]]))
env.render("rgb_array")
env.viewer.enabled = True
image = env.render("rgb_array")
assert (image[:, -4:] == (100, 200, 255)).all(axis=-1).any()
env.close()
''')

B("c23-linear-as-idm", "C23", [("highway_env/vehicle/graphics.py", """        elif isinstance(vehicle, LinearVehicle):
            color = cls.YELLOW
        elif isinstance(vehicle, IDMVehicle):
            color = cls.BLUE
""", """        elif isinstance(vehicle, IDMVehicle):
            color = cls.BLUE
        elif isinstance(vehicle, LinearVehicle):
            color = cls.YELLOW
""")],
  "linear drivers (which are also IDM drivers)",
  "Linear drivers have the colour of IDM drivers.",
  HEAD + '''
env = make("highway-v0", {"offscreen_rendering": True, "vehicles_count": 0})
from highway_env.vehicle.behavior import LinearVehicle
env.road.vehicles.append(LinearVehicle(env.road, env.vehicle.position + np.array([20, 0])))
env.render("rgb_array")
env.viewer.enabled = True
image = env.render("rgb_array")
assert (image == (200, 200, 0)).all(axis=-1).any()
env.close()
''')

OB = "highway_env/envs/common/observation.py"
B("c23-stack-in-place", "C23", [(OB, "        self.state = np.roll(self.state, -1, axis=-1)\n",
                                 "        self.state[:, :, :-1] = self.state[:, :, 1:]\n")],
  "an image observation that is kept until after the next step",
  "Image observations are changed by later steps.",
  HEAD + '''
env = make("highway-v0", {"offscreen_rendering": True, "vehicles_count": 3, "screen_width": 84, "screen_height": 84,
                          "observation": {"type": "GrayscaleObservation", "weights": [0.3, 0.6, 0.1], "stack_size": 2,
                                          "observation_shape": (84, 84)}})
env.render("rgb_array")
env.viewer.enabled = True
first, *_ = env.step(1)
copy_ = first.copy()
env.step(1)
assert (first == copy_).all()
env.close()
''')

FM = "highway_env/envs/common/finite_mdp.py"
B("c24-lane-of-the-target", "C24", [(FM, "env.vehicle.lane_index[2], 0)", "env.vehicle.target_lane_index[2], 0)")],
  "an agent in the middle of a lane change",
  "The present state of the finite process is on the targeted lane, not the present one.",
  HEAD + '''
import sys, types
finite = types.ModuleType("finite_mdp.mdp")
class MDP:
    def __init__(self, transition, reward, terminal, state):
        self.state = state
finite.DeterministicMDP = MDP
sys.modules["finite_mdp"], sys.modules["finite_mdp.mdp"] = types.ModuleType("finite_mdp"), finite
env = make("highway-v0", {"vehicles_count": 2, "initial_lane_id": 1})
env.vehicle.target_lane_index = ("0", "1", 2)
m = env.to_finite_mdp()
assert np.unravel_index(m.state, m.original_shape) == (env.vehicle.speed_index, 1, 0)
''')

B("c24-terminal-when-possible", "C24", [(FM, "collision = grid == 1", "collision = grid > 0")],
  "cells where a collision is possible but not certain",
  "States where a collision is only possible are terminal.",
  HEAD + '''
import sys, types
finite = types.ModuleType("finite_mdp.mdp")
class MDP:
    def __init__(self, transition, reward, terminal, state):
        self.terminal = terminal
finite.DeterministicMDP = MDP
sys.modules["finite_mdp"], sys.modules["finite_mdp.mdp"] = types.ModuleType("finite_mdp"), finite
from highway_env.envs.common.finite_mdp import compute_ttc_grid
env = make("highway-v0", {"vehicles_count": 20})
m = env.to_finite_mdp()
grid = compute_ttc_grid(env, 1., 10.)
assert ((grid > 0) & (grid < 1)).any()
end = np.zeros(grid.shape, bool)
end[:, :, -1] = True
assert (np.array(m.terminal) == ((grid == 1) | end).ravel()).all()
''')

IV = "highway_env/interval.py"
B("c25-two-corners", "C25", [(IV, "    vertices_id = itertools.product([0, 1], repeat=params_intervals.shape[1])\n",
                              "    vertices_id = [[k] * params_intervals.shape[1] for k in range(2)]\n")],
  "a polytope with two uncertain parameters or more",
  "Matrix polytopes only have two of the corners of the parameter box as vertices.",
  HEAD + '''
from highway_env.interval import polytope
a0, da = polytope(lambda t: np.diag(t), np.array([[1., 2.], [3., 6.]]))
found = {tuple(np.diag(a0 + d)) for d in da}
assert found == {(1, 2), (1, 6), (3, 2), (3, 6)}, found
''')

B("c25-upper-bound-of-negatives", "C25", [(IV, "dx_M = a0 @ x_M + da_p @ p(x_M) + da_n @ n(x_m) +",
                                           "dx_M = a0 @ x_M + da_p @ p(x_M) + da_n @ n(x_M) +")],
  "an interval of states that contains zero, and a decreasing uncertain gain",
  "The upper bound of predictors is too low: systems within the polytope leave the interval.",
  HEAD + '''
from highway_env.interval import LPV
l = LPV(x0=[0.], a0=[[-1.]], da=[np.array([[-.5]])], x_i=[[-1.], [0.]])
l.step(0.1)
x = -1 + 0.1 * (-1.5) * -1
assert l.x_i_t[1, 0] >= 0.05 - 1e-9, l.x_i_t
''')

ES = "highway_env/vehicle/uncertainty/estimation.py"
B("c30-own-output", "C30", [(ES, "self.add_features(data, route[0], output_lane=self.target_lane_index)",
                             "self.add_features(data, route[0])")],
  "a watched vehicle that follows one of several routes for some time",
  "The commands collected for a hypothetical route are those that it would ask for: no route is ever rejected.",
  HEAD + '''
from highway_env.vehicle.uncertainty.estimation import MultipleModelVehicle
env = make("intersection-v0", {"initial_vehicle_count": 1, "spawn_probability": 0})
v = MultipleModelVehicle.make_on_lane(env.road, ("o0", "ir0", 0), 80, speed=8)
v.plan_route_to("o1")
env.road.vehicles = [v]
for _ in range(60):
    env.road.act()
    env.road.step(1 / 15)
    for route, data in v.data:
        if data:
            lane = env.road.network.get_lane(v.target_lane_index)
    if len(v.data) > 1 and v.lane_index[0] == "ir0" and v.lane.local_coordinates(v.position)[0] > 5:
        outputs = [float(np.ravel(d["lateral"]["outputs"][-1])[0]) for _, d in v.data if d]
        assert np.ptp(outputs) < 1e-9, outputs
''')

B("c30-bound-of-negatives", "C30", [("highway_env/utils.py", "    param_bound = np.amax(np.abs(parameter_box))\n",
                                     "    param_bound = np.amax(parameter_box)\n")],
  "a parameter box with negative values of larger magnitude than the positive ones",
  "The confidence radius ignores that parameters may be negative.",
  HEAD + '''
data = {"features": [[1.], [0.5]], "outputs": [[-2.], [-1.]]}
_, _, _, b = utils.confidence_polytope({"features": np.array(data["features"]), "outputs": np.array(data["outputs"])},
                                       parameter_box=np.array([[-1000.], [1.]]))
_, _, r = utils.confidence_ellipsoid({"features": np.array(data["features"]), "outputs": np.array(data["outputs"])},
                                     param_bound=1000.)
assert abs(b - r) < 1e-9, (b, r)
''')

B("c31-merged-settings", "C31", [(A, "        self.config = self.default_config()\n        if config:\n            self.config.update(config)\n",
                                  "        self.config = self.default_config()\n        for key, value in (config or {}).items():\n"
                                  "            if isinstance(value, dict) and isinstance(self.config.get(key), dict):\n"
                                  "                value = {**self.config[key], **value}\n            self.config[key] = value\n")],
  "a task with several default observation settings, created with another observation",
  "Settings given at creation are mixed with the default ones.",
  HEAD + '''
from highway_env.envs import ParkingEnv
env = ParkingEnv({"observation": {"type": "KinematicsGoal", "features": ["x"], "scales": [1]}})
assert env.config["observation"] == {"type": "KinematicsGoal", "features": ["x"], "scales": [1]}
''')

B("c31-priority-of-left-turns", "C31", [(I, "clockwise=False, line_types=[n, n], priority=priority - 1, speed_limit=10",
                                         "clockwise=False, line_types=[n, n], priority=max(priority - 1, 1), speed_limit=10")],
  "left turns from the vertical roads",
  "Left turns from the road without right of way have the same priority as straight lanes.",
  HEAD + '''
env = make("intersection-v0")
assert env.road.network.get_lane(("ir0", "il1", 0)).priority == 0
assert env.road.network.get_lane(("ir1", "il2", 0)).priority == 2
''')

B("c01-frames-after-the-end", "C01", [(A, "            if self.done or self._is_terminal():\n                break", "            if self.done:\n                break")],
  "an episode that ends in the middle of a decision step",
  "The frames of a decision step go on after the end of the episode.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 1, "simulation_frequency": 15})
env.vehicle.crashed = True
env.step(1)
assert env.time == 1, env.time
''')

HW = "highway_env/envs/highway_env.py"
B("c02-duration-in-seconds", "C02", [(HW, 'self.steps >= self.config["duration"] or',
                                      'self.time >= self.config["duration"] * self.config["simulation_frequency"] or')],
  "more than one decision per second, on the highway",
  "Highway episodes last for the configured number of seconds instead of decisions.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 0, "policy_frequency": 3, "duration": 4})
ends = [env.step(1)[2] for _ in range(4)]
assert ends == [False, False, False, True], ends
''')

B("c03-lane-of-now", "C03", [(HW, "lane = self.vehicle.target_lane_index[2] if isinstance(self.vehicle, ControlledVehicle) \\\n            else self.vehicle.lane_index[2]",
                              "lane = self.vehicle.lane_index[2] if isinstance(self.vehicle, ControlledVehicle) \\\n            else self.vehicle.lane_index[2]")],
  "an agent in the middle of a lane change",
  "Lane rewards depend on the present lane instead of the targeted one.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 0, "initial_lane_id": 1, "lanes_count": 4})
a = env._reward(1)
env.vehicle.target_lane_index = ("0", "1", 2)
assert abs(env._reward(1) - a - 0.1 / 3 / 1.5) < 1e-6
''')

B("c04-unclipped-grid", "C04", [(OB, "            obs = np.clip(self.grid, -1, 1)\n", "            obs = self.grid.copy()\n")],
  "relative speeds beyond the configured range, or features without a range",
  "Occupancy grids may leave the declared bounds.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 0, "observation": {"type": "OccupancyGrid", "features": ["vx"], "features_range": {"vx": [-5, 5]}}})
from highway_env.vehicle.kinematics import Vehicle
env.road.vehicles.append(Vehicle(env.road, env.vehicle.position + np.array([12, 0]), speed=5))
assert env.observation_space.contains(env.observation_type.observe().astype(np.float32))
''')

RD = "highway_env/road/road.py"
B("c05-nothing-behind", "C05", [(RD, "(see_behind or -2 * vehicle.LENGTH < vehicle.lane_distance_to(v))", "(see_behind or 0 <= vehicle.lane_distance_to(v))")],
  "a vehicle beside the agent, slightly behind",
  "Vehicles beside the agent but slightly behind are not observed.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 0})
from highway_env.vehicle.kinematics import Vehicle
env.road.vehicles.append(Vehicle(env.road, env.vehicle.position + np.array([-3, 0]), speed=5))
assert env.observation_type.observe()[1, 0] == 1
''')

B("c06-first-of-the-cell", "C06", [(OB, "                        self.grid[layer, cell[1], cell[0]] = vehicle[feature]\n",
                                    "                        if not self.grid[layer, cell[1], cell[0]]:\n"
                                    "                            self.grid[layer, cell[1], cell[0]] = vehicle[feature]\n")],
  "several vehicles in the same cell",
  "A cell shows the first of several vehicles rather than the last, and may mix several when a feature is zero.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 0, "observation": {"type": "OccupancyGrid", "features": ["presence", "vx"]}})
from highway_env.vehicle.kinematics import Vehicle
for k in range(2):
    env.road.vehicles.append(Vehicle(env.road, env.vehicle.position + np.array([20.1 + k, 0]), speed=env.vehicle.speed + 10 + 5 * k))
obs = env.observation_type.observe()
c = int(np.floor((20.5 + 27.5) / 5))
assert abs(obs[1, 5, c] - 15 / 60) < 1e-6, obs[1, 5]
''')

B("c07-two-roads-ahead", "C07", [(FM, "route=vehicle.route, depth=3)", "route=vehicle.route, depth=2)")],
  "a vehicle three roads ahead along the route of the observer",
  "Collisions with vehicles on the third road ahead are not predicted.",
  HEAD + '''
from highway_env.envs.common.finite_mdp import compute_ttc_grid
from highway_env.road.road import RoadNetwork, Road
from highway_env.road.lane import StraightLane
from highway_env.vehicle.controller import MDPVehicle
from highway_env.vehicle.kinematics import Vehicle
env = make("highway-v0", {"vehicles_count": 0})
net = RoadNetwork()
for k in range(4):
    net.add_lane(str(k), str(k + 1), StraightLane([50 * k, 0], [50 * k + 50, 0]))
env.road = Road(net)
env.vehicle = MDPVehicle(env.road, [10, 0], speed=25)
env.road.vehicles = [env.vehicle, Vehicle(env.road, [160, 0], speed=0)]
grid = compute_ttc_grid(env, 1., 10.)
assert grid[1, 0, 6] == 1, grid
''')

B("c08-order-of-sets", "C08", [(RD, "next_to = list(self.graph[_to].keys())[np_random.randint(len(self.graph[_to]))]",
                                "next_to = list(set(self.graph[_to]))[np_random.randint(len(self.graph[_to]))]")],
  "a vehicle without a route at the end of its road, in several processes",
  "The road taken by vehicles without a route depends on the hash seed of the interpreter.",
  HEAD + '''
import os, subprocess, sys
if len(sys.argv) > 1:
    env = make("intersection-v0")
    state = np.random.RandomState(0)
    print([env.road.network.next_lane(("o0", "ir0", 0), position=np.zeros(2), np_random=state) for _ in range(12)])
    sys.exit()
outs = {subprocess.run([sys.executable, __file__, "x"], env=dict(os.environ, PYTHONHASHSEED=str(h)), stdout=subprocess.PIPE).stdout for h in range(6)}
assert len(outs) == 1, outs
''')

BH = "highway_env/vehicle/behavior.py"
B("c09-route-lost", "C09", [(BH, "                route=vehicle.route, timer=getattr(vehicle, 'timer', None))\n",
                             "                timer=getattr(vehicle, 'timer', None))\n")],
  "vehicles with a route whose class is changed",
  "Changing the class of vehicles loses their routes.",
  HEAD + '''
env = make("intersection-v0")
other = env.change_vehicles("highway_env.vehicle.behavior.AggressiveVehicle")
for a, b in zip(env.road.vehicles, other.road.vehicles):
    assert a.route == b.route
''')

B("c10-grid-returned", "C10", [(OB, "            obs = np.clip(self.grid, -1, 1)\n", "            obs = np.clip(self.grid, -1, 1, out=self.grid)\n")],
  "an occupancy grid that is kept until after the next step",
  "Occupancy grids returned earlier are overwritten by later ones.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 10, "observation": {"type": "OccupancyGrid"}})
first, *_ = env.step(1)
kept = first.copy()
for _ in range(3):
    env.step(4)
assert (first == kept).all()
''')

KI = "highway_env/vehicle/kinematics.py"
B("c11-lowest-speed", "C11", [(KI, "self.speed = other.speed = min([self.speed, other.speed], key=abs)", "self.speed = other.speed = min(self.speed, other.speed)")],
  "a collision with a vehicle that drives backwards",
  "After a collision both vehicles take the lowest speed, even if it is that of a fast reversing vehicle.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 0})
from highway_env.vehicle.kinematics import Vehicle
a, b = Vehicle(env.road, [100, 0], speed=2), Vehicle(env.road, [103, 0], speed=-10)
a.check_collision(b)
assert a.crashed and a.speed == b.speed == 2, a.speed
''')

B("c12-lane-without-heading", "C12", [(KI, "            self.lane_index = self.road.network.get_closest_lane_index(self.position, self.heading)\n            self.lane = self.road.network.get_lane(self.lane_index)\n            if",
                                       "            self.lane_index = self.road.network.get_closest_lane_index(self.position)\n            self.lane = self.road.network.get_lane(self.lane_index)\n            if")],
  "a moving vehicle where lanes of opposite directions overlap",
  "The lane of a moving vehicle may be one in the opposite direction.",
  HEAD + '''
from highway_env.vehicle.kinematics import Vehicle
env = make("two-way-v0")
v = Vehicle(env.road, [200, 0.0], heading=np.pi, speed=10)
env.road.vehicles = [v]
env.road.step(1 / 15)
assert v.lane_index == ("b", "a", 0), v.lane_index
''')

CT = "highway_env/vehicle/controller.py"
B("c13-slower-speed-below", "C13", [(CT, '            self.speed_index = self.speed_to_index(self.speed) - 1\n', '            self.speed_index = min(self.speed_index, self.speed_to_index(self.speed)) - 1\n')],
  "braking again while the target is already below the present speed",
  "Going slower twice skips an allowed speed when the vehicle has not slowed down yet.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 0})
v = env.vehicle
v.speed = 30
v.act("SLOWER")
v.act("SLOWER")
assert v.target_speed == 25, v.target_speed
''')

B("c14-unspecified-not-dropped", "C14", [(RD, "            if route[0][:2] == current_index[:2]:  # We", "            if route[0] == current_index:  # We")],
  "a route whose lanes are unspecified",
  "Roads that are finished stay in the route when their lane was not specified.",
  HEAD + '''
env = make("intersection-v0")
route = [("o0", "ir0", None), ("ir0", "il1", None), ("il1", "o1", None)]
assert env.road.network.next_lane(("o0", "ir0", 0), route=route, position=np.zeros(2))[:2] == ("ir0", "il1")
assert [r[:2] for r in route] == [("ir0", "il1"), ("il1", "o1")], route
''')

LN = "highway_env/road/lane.py"
B("c15-no-wrap", "C15", [(LN, "        phi = self.start_phase + utils.wrap_to_pi(phi - self.start_phase)\n", "")],
  "circular lanes whose phases are outside of [-pi, pi] or that cross its border",
  "Longitudinal coordinates on circular lanes jump by a turn.",
  HEAD + '''
from highway_env.road.lane import CircularLane
lane = CircularLane([0, 0], 10, np.radians(170), np.radians(250))
for s in np.linspace(0.1, lane.length - 0.1, 9):
    x, y = lane.local_coordinates(lane.position(s, 1))
    assert abs(x - s) < 1e-6 and abs(y - 1) < 1e-6, (s, x, y)
''')

B("c16-drag-in-reverse", "C16", [(BH, "np.power(max(ego_vehicle.speed, 0) / ego_target_speed, self.DELTA)", "np.power(abs(ego_vehicle.speed) / ego_target_speed, self.DELTA)")],
  "a driver who drives backwards",
  "A driver going backwards accelerates less towards its target speed.",
  HEAD + '''
from highway_env.vehicle.behavior import IDMVehicle
env = make("highway-v0", {"vehicles_count": 0})
v = IDMVehicle(env.road, [100, 0], speed=-10, target_speed=20)
assert v.acceleration(v) == v.COMFORT_ACC_MAX
''')

B("c17-gives-way-behind", "C17", [(BH, "if 0 < d < d_star:", "if abs(d) < d_star:")],
  "two drivers changing to the same lane, the other one behind",
  "A driver gives up its lane change for another driver behind it, so that both give up.",
  HEAD + '''
from highway_env.vehicle.behavior import IDMVehicle
env = make("highway-v0", {"vehicles_count": 0, "lanes_count": 3})
a = IDMVehicle(env.road, [100, 0], speed=20, target_lane_index=("0", "1", 1))
b = IDMVehicle(env.road, [90, 8], speed=20, target_lane_index=("0", "1", 1))
env.road.vehicles = [a, b]
a.change_lane_policy()
assert a.target_lane_index == ("0", "1", 1)
''')

RG = "highway_env/road/regulation.py"
B("c18-timer-not-restarted", "C18", [(RG, "                        yielding_vehicle.yield_timer = 0\n",
                                      '                        yielding_vehicle.yield_timer = getattr(yielding_vehicle, "yield_timer", 0)\n')],
  "a driver told to yield again while it yields, or after it has been released",
  "The timer of a yielding driver is not restarted when it is told to yield again.",
  HEAD + '''
from highway_env.vehicle.behavior import IDMVehicle
env = make("intersection-v0", {"initial_vehicle_count": 1, "spawn_probability": 0})
road = env.road
road.YIELD_DURATION = 5
a = IDMVehicle.make_on_lane(road, ("o0", "ir0", 0), 97, speed=8)
b = IDMVehicle.make_on_lane(road, ("o1", "ir1", 0), 97, speed=8)
a.plan_route_to("o2")
b.plan_route_to("o3")
road.vehicles = [a, b]
road.enforce_road_rules()
assert a.is_yielding
road.enforce_road_rules()
assert a.is_yielding and a.yield_timer == 0, a.yield_timer
''')

B("c19-fifth-agent", "C19", [(I, '("o{}".format(ego_id % 4), "ir{}".format(ego_id % 4), 0)', '("o{}".format(min(ego_id, 3)), "ir{}".format(min(ego_id, 3)), 0)')],
  "more than four agents at the intersection",
  "All agents after the fourth start on the last entrance.",
  HEAD + '''
env = make("intersection-multi-agent-v0", {"controlled_vehicles": 5, "initial_vehicle_count": 1})
assert env.controlled_vehicles[4].route[0][0] == "o0", env.controlled_vehicles[4].route
''')

B("c22-release-brakes-all", "C22", [("highway_env/envs/common/graphics.py", """            if event.key == pygame.K_LEFT and action_type.lateral:
                action[steering_index] = 0
""", """            if event.key == pygame.K_LEFT and action_type.lateral:
                action[:] = 0
""")],
  "keys of both axes pressed, then left released",
  "Releasing the left key also resets the acceleration.",
  HEAD + '''
import pygame
from highway_env.envs.common.graphics import EventHandler
env = make("highway-v0", {"action": {"type": "ContinuousAction"}, "manual_control": True})
for kind, key in [(pygame.KEYDOWN, pygame.K_UP), (pygame.KEYDOWN, pygame.K_LEFT), (pygame.KEYUP, pygame.K_LEFT)]:
    EventHandler.handle_event(env.action_type, pygame.event.Event(kind, key=key))
assert np.allclose(env.action_type.last_action, [0.7, 0]), env.action_type.last_action
''')

B("c27-oncoming-overtake", "C27", [("highway_env/envs/two_way_env.py", """                              speed=20 + 5*self.np_random.randn(),
                              enable_lane_change=False)""", """                              speed=20 + 5*self.np_random.randn())""")],
  "oncoming traffic of the two-way road",
  "Oncoming drivers may change lanes.",
  HEAD + '''
env = make("two-way-v0")
assert not any(v.enable_lane_change for v in env.road.vehicles[1:])
''')

B("c29-count-restarts", "C29", [(CT, """        t = 0
        for action in actions:
            v.act(action)  # High-level decision
""", """        for action in actions:
            t = 0
            v.act(action)  # High-level decision
""")],
  "actions whose duration is not a multiple of the time between predicted states",
  "The count of frames restarts with each action, so that states are not evenly spaced.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 0})
states = env.vehicle.predict_trajectory([1, 1, 1], 1, 2, 1 / 15)
assert len(states) == 1, len(states)
''')

PR = "highway_env/vehicle/uncertainty/prediction.py"
UNC = HEAD + '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
road = Road(RoadNetwork.straight_road_network(2))
'''
B("c26-front-is-certain", "C26", [(PR, "                front_interval = front_vehicle.interval\n", "                front_interval = VehicleInterval(front_vehicle)\n")],
  "an uncertain vehicle ahead",
  "The uncertainty of the vehicle ahead is ignored: drivers behind it may be out of their bounds.",
  UNC + '''
v = IntervalVehicle(road, [0, 0], speed=20, target_speed=20)
front = IntervalVehicle(road, [90, 0], speed=20)
front.interval.speed = np.array([15., 20.])
road.vehicles = [v, front]
other = IntervalVehicle(road, [0, 4], speed=20, target_speed=20)
v.observer_step(0.1)
other.observer_step(0.1)
assert v.interval.speed[0] < other.interval.speed[0] - .05, (v.interval.speed, other.interval.speed)
''')
B("c26-lateral-ends", "C26", [(PR, "            lateral_i = -np.flip(lateral_i)\n", "            lateral_i = -lateral_i\n")],
  "an uncertain lateral position, off the centre of the lane",
  "Bounds of the lateral position are taken in the wrong order: headings leave their bounds.",
  UNC + '''
v = IntervalVehicle(road, [0, 0], speed=20)
road.vehicles = [v]
v.interval.position = np.array([[0., -3.], [0., 3.]])
v.observer_step(0.1)
assert v.interval.heading[1] >= .1 * (1 + 3 / 20 * 9), v.interval.heading
''')
B("c26-crash-with-the-model", "C26", [(PR, "rotated_rectangles_intersect((projection, self.LENGTH", "rotated_rectangles_intersect((self.position, self.LENGTH")],
  "an agent near the bounds of an uncertain vehicle, but not near its modelled position",
  "Collisions are those with the modelled position rather than the worst case.",
  UNC + '''
from highway_env.vehicle.controller import MDPVehicle
v = IntervalVehicle(road, [0, 0], speed=20)
v.interval.position = np.array([[-20., -1.], [20., 1.]])
ego = MDPVehicle(road, [22, 1], speed=20)
v.check_collision(ego)
assert v.crashed and ego.crashed
''')
B("c26-past-bounds-shared", "C26", [(PR, "self.interval_trajectory.append(copy.deepcopy(self.interval))", "self.interval_trajectory.append(copy.copy(self.interval))")],
  "the complete observer stepping in place after the bounds were recorded",
  "Recorded bounds change with later steps of the observer.",
  UNC + '''
v = IntervalVehicle(road, [0, 0], speed=20)
road.vehicles = [v]
v.store_trajectories()
v.observer_step(0.1)
assert np.allclose(v.interval_trajectory[0].position, 0), v.interval_trajectory[0].position
''')
LOOP = HEAD + '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.lane import StraightLane, CircularLane
from highway_env.vehicle.controller import ControlledVehicle


def drive(lane, s, r, h, v, target, seconds=10, fps=15):
    net = RoadNetwork()
    net.add_lane("a", "b", lane)
    road = Road(net, np_random=np.random.RandomState(0))
    car = ControlledVehicle(road, lane.position(s, r), lane.heading_at(s) + h, v, target_lane_index=("a", "b", 0), target_speed=target)
    road.vehicles = [car]
    out = []
    for _ in range(int(seconds * fps)):
        car.act()
        road.step(1 / fps)
        out.append((*lane.local_coordinates(car.position), car.speed))
    return np.array(out)


LONG = StraightLane([0, 0], [2000, 0])
'''
B("c28-one-sided-limit", "C28", [(CT, "heading_ref = lane_future_heading + np.clip(heading_command, -np.pi/4, np.pi/4)", "heading_ref = lane_future_heading + np.minimum(heading_command, np.pi/4)")],
  "a slow vehicle far on the right of its target lane",
  "The wanted direction is limited on one side only: slow vehicles far on the right of their lane turn across it, up to a right angle.",
  LOOP + '''
left = drive(LONG, 10, -9, 0, 5, 5)
right = drive(LONG, 10, 9, 0, 5, 5)
assert np.allclose(left[:, 1], -right[:, 1], atol=1e-6) and np.allclose(left[:, 0], right[:, 0], atol=1e-6)
''')
B("c28-no-look-ahead", "C28", [(CT, "        lane_next_coords = lane_coords[0] + self.speed * self.PURSUIT_TAU\n        lane_future_heading", "        lane_next_coords = np.minimum(lane_coords[0] + self.speed * self.PURSUIT_TAU, target_lane.length - self.speed)\n        lane_future_heading")],
  "the last second of a curve",
  "The direction of the lane is no longer anticipated in the last second before its end: vehicles leave curves further from their centre.",
  LOOP + '''
lane = CircularLane([0, 0], 30, 0, 1.5)
other = CircularLane([0, 0], 30, 0, 3)
a = drive(lane, 5, 0, 0, 10, 10, 4)
b = drive(other, 5, 0, 0, 10, 10, 4)
assert np.allclose(a, b, atol=1e-3), np.abs(a - b).max()
''')
B("c28-target-jump", "C28", [(CT, "        return self.KP_A * (target_speed - self.speed)", "        return self.KP_A * (target_speed - self.speed) if self.speed < 1.5 * target_speed else - self.KP_A * self.speed / 2")],
  "a target speed less than two thirds of the speed",
  "Far above the target speed the deceleration does not depend on it.",
  LOOP + '''
out = drive(LONG, 10, 0, 0, 30, 10, 3)
d = np.diff(np.concatenate([[30], out[:, 2]])) / (10 - np.concatenate([[30], out[:-1, 2]]))
assert np.allclose(d, 1 / 15 / .6, atol=1e-4), d
''')
AC = "highway_env/envs/common/action.py"
MG = "highway_env/envs/merge_env.py"
BEH = "highway_env/vehicle/behavior.py"
B("c27-agents-accumulate", "C27", [(HW, "        self.controlled_vehicles = []\n", "        self.controlled_vehicles = list(self.controlled_vehicles or [])\n")],
  "a second episode on the highway",
  "The agents of previous episodes remain among the controlled vehicles: the first one, whom actions and rewards are about, is no longer on the road.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 2})
env.reset()
assert len(env.controlled_vehicles) == 1 and env.vehicle in env.road.vehicles
''')
B("c13-two-speeds", "C13", [(CT, "SPEED_COUNT: int = 3", "SPEED_COUNT: int = 2")],
  "a task with the default speeds",
  "Vehicles have two allowed speeds, 20 and 30 m/s, instead of three.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 0})
env.vehicle.speed = 20
env.step(3)
assert env.vehicle.target_speed == 25, env.vehicle.target_speed
''')
B("c01-nothing-after-a-crash", "C01", [(AC, "            action_type.act(agent_action)", "            if not any(v.crashed for v in self.env.controlled_vehicles):\n                action_type.act(agent_action)")],
  "several agents one of whom has crashed, in a task that goes on (highway)",
  "Once an agent has crashed, actions of the others are ignored.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 0, "controlled_vehicles": 2, "action": {"type": "MultiAgentAction", "action_config": {"type": "DiscreteMetaAction"}},
                          "observation": {"type": "MultiAgentObservation", "observation_config": {"type": "Kinematics"}}})
a, b = env.controlled_vehicles
b.crashed = True
env.step((3, 1))
assert a.target_speed == 30, a.target_speed
''')
B("c03-first-on-the-ramp", "C03", [(MG, "                          (vehicle.target_speed - vehicle.speed) / vehicle.target_speed\n", "                          (vehicle.target_speed - vehicle.speed) / vehicle.target_speed\n                break\n")],
  "two vehicles at once on the ramp",
  "Only the first vehicle on the ramp counts in the reward of merging.",
  HEAD + '''
from highway_env.vehicle.behavior import IDMVehicle
env = make("merge-v0")
lane = ("b", "c", 2)
def add(s):
    v = IDMVehicle.make_on_lane(env.road, lane, s, speed=10)
    v.target_speed = 30
    env.road.vehicles.append(v)
add(60)
one = env._reward(1)
add(20)
two = env._reward(1)
assert two < one - 1e-3, (one, two)
''')
B("c14-route-of-another-lane", "C14", [(RD, "if route and route[0][:2] == lane_index_1[:2]:\n                # Route is starting", "if route and route[0] == lane_index_1:\n                # Route is starting")],
  "a route that starts on the road of the vehicle, on another lane of it or on none in particular, and comes from further",
  "Roads are connected along the route only if it starts on the very lane of the vehicle.",
  HEAD + '''
from highway_env.road.road import RoadNetwork
from highway_env.road.lane import StraightLane
net = RoadNetwork()
for a, b, p, q in (("a", "b", [0, 0], [100, 0]), ("b", "c", [100, 0], [200, 0]), ("c", "d", [200, 0], [300, 0]),
                   ("b", "e", [100, 0], [150, 80]), ("e", "f", [150, 80], [200, 160])):
    for i in range(2):
        net.add_lane(a, b, StraightLane([p[0], p[1] + 4 * i], [q[0], q[1] + 4 * i]))
for first in (0, 1, None):
    route = [("a", "b", first), ("b", "c", None), ("c", "d", None)]
    assert net.is_connected_road(("a", "b", 0), ("c", "d", 0), route=route, depth=3), first
    assert not net.is_connected_road(("a", "b", 0), ("e", "f", 0), route=route, depth=3), first
''')
B("c14-paths-remembered", "C14", [(RD, "        return next(self.bfs_paths(start, goal), [])", "        if not hasattr(self, \"paths\"):\n            self.paths = {}\n        if (start, goal) not in self.paths:\n            self.paths[start, goal] = next(self.bfs_paths(start, goal), [])\n        return self.paths[start, goal]")],
  "a network that grows between two searches",
  "Shortest paths are remembered when lanes are added that make shorter ones.",
  HEAD + '''
from highway_env.road.road import RoadNetwork
from highway_env.road.lane import StraightLane
net = RoadNetwork()
lane = StraightLane([0, 0], [100, 0])
for a, b in ("ab", "bc", "cd"):
    net.add_lane(a, b, lane)
assert net.shortest_path("a", "d") == ["a", "b", "c", "d"]
net.add_lane("b", "d", lane)
assert net.shortest_path("a", "d") == ["a", "b", "d"], net.shortest_path("a", "d")
''')
B("c18-speed-of-the-target-lane", "C18", [("highway_env/road/regulation.py", "v.target_speed = v.lane.speed_limit", "v.target_speed = self.network.get_lane(v.target_lane_index).speed_limit")],
  "a vehicle that yielded with its target on a lane with another speed limit",
  "Vehicles who have yielded long enough get the speed limit of another lane.",
  HEAD + '''
from highway_env.road.road import RoadNetwork
from highway_env.road.lane import StraightLane
from highway_env.road.regulation import RegulatedRoad
from highway_env.vehicle.behavior import IDMVehicle
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([0, 0], [100, 0], speed_limit=10))
net.add_lane("a", "b", StraightLane([0, 4], [100, 4], speed_limit=20))
road = RegulatedRoad(net, np_random=np.random.RandomState(0))
v = IDMVehicle(road, [10, 0], 0, 5, target_lane_index=("a", "b", 1))
v.is_yielding, v.yield_timer, v.target_speed, v.color = True, 10000, 0, None
road.vehicles = [v]
road.enforce_road_rules()
assert v.target_speed == 10, v.target_speed
''')
B("c11-reversing-into-obstacle", "C11", [(KI, "self.speed = min([self.speed, 0], key=abs)", "self.speed = min(self.speed, 0)")],
  "an obstacle hit in reverse",
  "A vehicle that hits an obstacle in reverse keeps its speed.",
  HEAD + '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.objects import Obstacle
from highway_env.vehicle.kinematics import Vehicle
road = Road(RoadNetwork.straight_road_network(1), np_random=np.random.RandomState(0))
v = Vehicle(road, [10, 0], 0, -5)
road.vehicles, road.objects = [v], [Obstacle(road, [8, 0])]
v.check_collision(road.objects[0])
assert v.crashed and v.speed == 0, v.speed
''')
B("c08-merge-own-generator", "C08", [(MG, "road = Road(network=net, np_random=self.np_random, record_history", "road = Road(network=net, record_history")],
  "a random decision of the road of merge (a route at a fork, random behaviours, a random vehicle)",
  "The road of merge has a random generator of its own, out of reach of the seed.",
  HEAD + '''
out = []
for n in range(2):
    np.random.seed(n)
    env = make("merge-v0", seed=3)
    out.append([float(x) for x in env.road.np_random.rand(3)])
assert out[0] == out[1], out
''')
B("c05-lanes-of-the-first-agent", "C05", [(OB, "side_lanes = self.env.road.network.all_side_lanes(self.observer_vehicle.lane_index)", "side_lanes = self.env.road.network.all_side_lanes(self.env.vehicle.lane_index)")],
  "several observers on roads with different numbers of lanes",
  "The range of lateral positions is that of the road of the first agent, for all agents.",
  HEAD + '''
from highway_env.envs.common.observation import KinematicObservation
env = make("merge-v0")
from highway_env.vehicle.controller import MDPVehicle
net = env.road.network
env.vehicle.position = np.array(net.get_lane(("a", "b", 0)).position(10, 0)); env.vehicle.on_state_update()
other = MDPVehicle(env.road, net.get_lane(("b", "c", 0)).position(10, 0), 0, 20)
env.road.vehicles = [env.vehicle, other]
def seen(me):
    o = KinematicObservation(env)
    o.observer_vehicle = me
    o.observe()
    return o.features_range["y"]
assert seen(env.vehicle) != seen(other), (seen(env.vehicle), seen(other))
''')
B("c09-timer-forgotten", "C09", [(BEH, "route=vehicle.route, timer=getattr(vehicle, 'timer', None))\n        return v\n\n    def act", "route=vehicle.route)\n        return v\n\n    def act")],
  "changing the class of drivers who are waiting for their next decision",
  "Drivers whose class is changed forget when their next lane change is due.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 6}, seed=2)
env.step(1)
new = env.change_vehicles("highway_env.vehicle.behavior.IDMVehicle")
for v, w in zip(env.road.vehicles[1:], new.road.vehicles[1:]):
    assert np.isclose(v.timer, w.timer), (v.timer, w.timer)
''')
B("c17-abreast-is-behind", "C17", [(RD, "if s <= s_v and (s_front is None or s_v <= s_front):", "if s < s_v and (s_front is None or s_v <= s_front):")],
  "two vehicles exactly abreast",
  "A vehicle exactly beside is neither ahead nor behind: drivers change lanes into it.",
  HEAD + '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
a, b = IDMVehicle(road, [100, 0], 0, 20), IDMVehicle(road, [100, 4], 0, 20)
slow = IDMVehicle(road, [115, 0], 0, 5)
road.vehicles = [a, b, slow]
a.timer = 5
a.change_lane_policy()
assert a.target_lane_index[2] == 0, a.target_lane_index
''')
B("c07-lanes-of-the-first-agent", "C07", [(OB, "lf = grid.shape[1] + self.observer_vehicle.lane_index[2]", "lf = grid.shape[1] + self.env.vehicle.lane_index[2]"), (OB, "l0 = grid.shape[1] + self.observer_vehicle.lane_index[2]", "l0 = grid.shape[1] + self.env.vehicle.lane_index[2]")],
  "several observers on different lanes",
  "Every agent sees the lanes around the first agent.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 0, "controlled_vehicles": 2, "lanes_count": 4, "action": {"type": "MultiAgentAction", "action_config": {"type": "DiscreteMetaAction"}},
                          "observation": {"type": "MultiAgentObservation", "observation_config": {"type": "TimeToCollision"}}})
a, b = env.controlled_vehicles
for v, y in ((a, 0), (b, 12)):
    v.position = np.array([100. + 40 * y, y])
    v.on_state_update()
oa, ob = env.observation_type.observe()
assert oa[0][0].all() and not oa[0][2].all() and ob[0][2].all() and not ob[0][0].all()
''')
UT = "highway_env/utils.py"
B("c13-speeds-by-halves", "C13", [(CT, "index * (self.SPEED_MAX - self.SPEED_MIN) / (self.SPEED_COUNT - 1)", "index * (self.SPEED_MAX - self.SPEED_MIN) / 2")],
  "vehicles with another number of allowed speeds than three",
  "Speeds of indexes are halves of the range, whatever the number of allowed speeds.",
  HEAD + '''
from highway_env.vehicle.controller import MDPVehicle
class Fine(MDPVehicle):
    SPEED_COUNT = 6
env = make("highway-v0", {"vehicles_count": 2})
v = Fine(env.road, env.vehicle.position, 0, 23)
assert np.allclose([v.index_to_speed(i) for i in range(6)], [20, 22, 24, 26, 28, 30])
''')
B("c13-index-of-the-target", "C13", [(CT, 'return getattr(vehicle, "speed_index", cls.speed_to_index_default(vehicle.speed))', 'return cls.speed_to_index_default(getattr(vehicle, "target_speed", vehicle.speed))')],
  "the speed index of a vehicle that has none, but another target speed than its speed",
  "Vehicles without a speed index get that of their target speed.",
  HEAD + '''
from highway_env.vehicle.controller import MDPVehicle
from highway_env.vehicle.behavior import IDMVehicle
env = make("highway-v0", {"vehicles_count": 2})
v = IDMVehicle(env.road, [0, 0], 0, 21, target_speed=30)
assert MDPVehicle.get_speed_index(v) == 0
env.vehicle.speed_index, env.vehicle.target_speed = 2, 30
assert MDPVehicle.get_speed_index(env.vehicle) == 2
''')
B("c02-ends-of-everyone", "C02", [(A, 'done = info["agents_dones"]', 'done = tuple(done for _ in info["agents_dones"])')],
  "separate agents, one of which is over before the others",
  "The variant for separate agents tells every agent that it is over as soon as the episode is.",
  HEAD + '''
outer = gym.make("intersection-multi-agent-v1")
outer.unwrapped.config.update({"initial_vehicle_count": 1, "spawn_probability": 0})
outer.seed(1)
outer.reset()
env = outer.unwrapped
env.road.vehicles = list(env.controlled_vehicles)
env.controlled_vehicles[1].crashed = True
_, _, done, info = outer.step((1, 1))
assert tuple(bool(d) for d in done) == (False, True), done
''')
B("c03-mean-for-everyone", "C03", [(A, 'reward = info["agents_rewards"]', 'reward = tuple(reward for _ in info["agents_rewards"])')],
  "separate agents with different rewards",
  "The variant for separate agents gives every agent the mean of all rewards.",
  HEAD + '''
outer = gym.make("intersection-multi-agent-v1")
outer.unwrapped.config.update({"initial_vehicle_count": 1, "spawn_probability": 0})
outer.seed(1)
outer.reset()
env = outer.unwrapped
env.road.vehicles = list(env.controlled_vehicles)
env.controlled_vehicles[1].crashed = True
_, rewards, _, info = outer.step((1, 1))
assert rewards[1] < rewards[0] and tuple(rewards) == tuple(info["agents_rewards"]), rewards
''')
B("c25-feedback-at-the-start", "C25", [("highway_env/interval.py", "control = control - self.k @ state", "control = control - self.k @ self.x0")],
  "a predictor of a stabilised system whose control is set when its state has moved",
  "The feedback that is part of the closed loop is taken off the control for the initial state instead of the present one.",
  HEAD + '''
from highway_env.interval import LPV
a, b, k = np.array([[0.]]), np.array([[1.]]), np.array([[-1.]])
x, u, dt = np.array([1.]), np.array([[1.]]), .1
s = LPV(x.copy(), a, [0 * a], b=b, k=k, x_i=np.array([x, x]))
for _ in range(10):
    s.set_control(u, x)
    s.step(dt)
    x = x + dt * u[0]
    lo, hi = s.x_i_t
    assert lo[0] - 1e-6 <= x[0] <= hi[0] + 1e-6, (lo, x, hi)
''')
B("c20-bounds-of-the-next-state", "C20", [(LK, "        self.store_data()\n        if self.lpv:\n", "        if self.lpv:\n"),
                                          (LK, "            self.lpv.step(1 / self.config[\"simulation_frequency\"])\n", "            self.lpv.step(1 / self.config[\"simulation_frequency\"])\n        self.store_data()\n")],
  "an episode with a predictor",
  "Recorded states are stored with the bounds predicted for the next ones.",
  HEAD + '''
from highway_env.interval import LPV
env = make("lane-keeping-v0")
env.reset()
x = np.ravel(env.vehicle.state[[1, 2, 4, 5]])
env.lpv = LPV(x, -np.eye(4), [0 * np.eye(4)], x_i=np.array([x - .1, x + .1]))
env.trajectory, env.interval_trajectory = [], []
env.step(np.array([0.]))
lo, hi = env.interval_trajectory[0]
assert np.allclose(hi[1] - lo[1], .2) and np.allclose(hi[1] - .1, env.trajectory[0][1]), (lo, hi)
''')
GR = "highway_env/envs/common/graphics.py"
B("c23-square-windows", "C23", [(GR, '''            if not self.offscreen:
                if self.env.config["screen_width"] > self.env.config["screen_height"]:
                    self.screen.blit(''', '''            if not self.offscreen:
                if self.env.config["screen_width"] >= self.env.config["screen_height"]:
                    self.screen.blit(''')],
  "a square window with the display of an agent",
  "In square windows, the display of the agent is drawn below the window instead of beside the road.",
  HEAD + '''
env = make("highway-v0", {"screen_width": 200, "screen_height": 200, "vehicles_count": 2})
env.render("human")
env.viewer.enabled = True
env.viewer.set_agent_display(lambda agent, sim: agent.fill((10, 200, 30)))
env.should_update_rendering = True
image = np.array(env.render("rgb_array"))
assert image.shape == (200, 400, 3) and (image[:, 200:] == [10, 200, 30]).all(), image.shape
''')
B("c23-last-key-only", "C23", [(GR, '''            if self.env.action_type:
                EventHandler.handle_event(self.env.action_type, event)
''', '''        if self.env.action_type and "event" in locals():
            EventHandler.handle_event(self.env.action_type, event)
''')],
  "several keys pressed between two images of a window",
  "Only the last of the keys pressed between two images reaches the agent.",
  HEAD + '''
import pygame
env = make("highway-v0", {"vehicles_count": 2})
env.render("human")
env.vehicle.speed, env.vehicle.speed_index, env.vehicle.target_speed = 20., 0, 20.
lane = env.vehicle.target_lane_index[2]
pygame.event.post(pygame.event.Event(pygame.KEYDOWN, key=pygame.K_RIGHT))
pygame.event.post(pygame.event.Event(pygame.KEYDOWN, key=pygame.K_x))
env.render("human")
assert env.vehicle.target_speed == 25, env.vehicle.target_speed
''')
B("c32-wrap-of-negatives", "C32", [(UT, "return ((x + np.pi) % (2 * np.pi)) - np.pi", "return np.fmod(x + np.pi, 2 * np.pi) - np.pi")],
  "angles below -pi",
  "Angles below minus half a turn are not wrapped.",
  HEAD + '''
assert np.allclose([utils.wrap_to_pi(x) for x in (-4., -7., 4., 7., 1.)], [2 * np.pi - 4, 2 * np.pi - 7, 4 - 2 * np.pi, 7 - 2 * np.pi, 1])
''')
B("c32-small-negatives", "C32", [(UT, "    elif x > 0:\n        return eps\n", "    elif x > -eps:\n        return eps\n")],
  "small negative numbers",
  "Small negative numbers become positive.",
  HEAD + '''
assert utils.not_zero(-.005) == -.01 and utils.not_zero(.005) == .01 and utils.not_zero(-3) == -3 and utils.not_zero(-.3, 1) == -1
''')
B("c32-falling-ranges", "C32", [(UT, "return y[0] + (v - x[0]) * (y[1] - y[0]) / (x[1] - x[0])", "return y[0] + (v - x[0]) * abs((y[1] - y[0]) / (x[1] - x[0]))")],
  "a range that is mapped to a falling one",
  "Falling ranges are mapped as rising ones.",
  HEAD + '''
assert utils.lmap(1, [0, 4], [8, 0]) == 6 and utils.lmap(1, [0, 4], [0, 8]) == 2 and utils.lmap(3, [4, 0], [0, 8]) == 2
''')
B("c14-follow-only-forward", "C14", [(CT, "        if self.road.network.get_lane(self.target_lane_index).after_end(self.position):",
                                      "        if self.speed > 0 and self.road.network.get_lane(self.target_lane_index).after_end(self.position):")],
  "a vehicle at rest or reversing beyond the end of the lane it follows",
  "Vehicles that stand beyond the end of their lane keep following it.",
  HEAD + '''
from highway_env.vehicle.controller import ControlledVehicle
env = make("merge-v0")
net = env.road.network
lane = net.get_lane(("a", "b", 0))
for speed in (20, 0, -2):
    v = ControlledVehicle(env.road, lane.position(lane.length, 0), 0, speed, target_lane_index=("a", "b", 0))
    v.follow_road()
    assert v.target_lane_index == ("b", "c", 0), (speed, v.target_lane_index)
''')
B("c14-plan-from-the-target", "C14", [(CT, "path = self.road.network.shortest_path(self.lane_index[1], destination)",
                                       "path = self.road.network.shortest_path(self.target_lane_index[1], destination)")],
  "a route planned by a vehicle that already follows the next road, or another one",
  "Routes are planned from the end of the road that is followed, not of the road on which the vehicle is.",
  HEAD + '''
from highway_env.vehicle.controller import ControlledVehicle
env = make("merge-v0")
lane = env.road.network.get_lane(("a", "b", 0))
v = ControlledVehicle(env.road, lane.position(lane.length - 5, 0), 0, 20, target_lane_index=("b", "c", 0))
v.plan_route_to("d")
assert [r[:2] for r in v.route] == [("a", "b"), ("b", "c"), ("c", "d")], v.route
''')
B("c18-length-of-the-other", "C18", [(RG, "(position_2, 1.5*v2.LENGTH, 0.9*v2.WIDTH, heading_2)", "(position_2, 1.5*v1.LENGTH, 0.9*v2.WIDTH, heading_2)")],
  "a conflict between vehicles of different lengths",
  "Conflicts with long vehicles are predicted as if they were as long as the other one.",
  HEAD + '''
from highway_env.road.regulation import RegulatedRoad
from highway_env.vehicle.controller import ControlledVehicle
env = make("highway-v0", {"vehicles_count": 0})
def pair(gap, l1, l2):
    a, b = [ControlledVehicle(env.road, np.array([x, 0.]), 0., 10.) for x in (100., 100. + gap)]
    a.LENGTH, b.LENGTH = l1, l2
    return bool(RegulatedRoad.is_conflict_possible(a, b))
assert [pair(4, 5, 5), pair(9, 5, 5), pair(9, 12, 2), pair(11.5, 12, 2), pair(11.5, 12, 12)] == [True, False, True, False, True]
''')
B("c07-wrecks-ignored", "C07", [(FM, "if (other is vehicle) or (ego_speed == other.speed):", "if (other is vehicle) or (ego_speed == other.speed) or (other.crashed and not other.speed):")],
  "wrecked vehicles at rest ahead of the agent",
  "Wrecks at rest are missing in the grids of the times to collision.",
  HEAD + '''
from highway_env.envs.common.finite_mdp import compute_ttc_grid
env = make("highway-v0", {"vehicles_count": 1, "lanes_count": 1})
v = env.road.vehicles[1]
v.position = env.vehicle.position + np.array([100., 0.])
v.speed = 0.
for crashed in (False, True):
    v.crashed = crashed
    assert compute_ttc_grid(env, 1., 10.).max() == 1, crashed
''')
B("c05-length-of-the-other", "C05", [(RD, "and (see_behind or -2 * vehicle.LENGTH < vehicle.lane_distance_to(v))]", "and (see_behind or -2 * v.LENGTH < vehicle.lane_distance_to(v))]")],
  "a vehicle of another length a little behind the agent",
  "How far behind others are still observed depends on their own length.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 1, "lanes_count": 1})
v = env.road.vehicles[1]
for length, behind, seen in ((5., 9., 1), (5., 11., 0), (12., 15., 0), (2., 8., 1)):
    v.LENGTH = length
    v.position = env.vehicle.position - np.array([behind, 0.])
    assert env.observation_type.observe()[1, 0] == seen, (length, behind)
''')
B("c16-aim-within-limits", "C16", [(BH, '''ego_target_speed = utils.not_zero(getattr(ego_vehicle, "target_speed", 0))''',
                                    '''ego_target_speed = utils.not_zero(min(getattr(ego_vehicle, "target_speed", 0), 2 * getattr(ego_vehicle.lane, "speed_limit", 100)))''')],
  "a driver on a lane whose speed limit is less than half the speed it aims at",
  "The acceleration of drivers on slow lanes is not that of the IDM.",
  HEAD + '''
from highway_env.vehicle.behavior import IDMVehicle
env = make("highway-v0", {"vehicles_count": 0})
v = IDMVehicle(env.road, env.vehicle.position, 0., 10., target_speed=30.)
for limit in (20, 10, 5):
    v.lane.speed_limit = limit
    assert np.isclose(v.acceleration(v), IDMVehicle.COMFORT_ACC_MAX * (1 - (1 / 3) ** v.DELTA)), limit
''')
B("c16-looks-ahead-when-reversing", "C16", [(CT, "lane_next_coords = lane_coords[0] + self.speed * self.PURSUIT_TAU", "lane_next_coords = lane_coords[0] + abs(self.speed) * self.PURSUIT_TAU")],
  "a vehicle that reverses along a bend",
  "The steering of a vehicle that reverses follows the lane ahead of it rather than behind.",
  HEAD + '''
from highway_env.vehicle.controller import ControlledVehicle
env = make("roundabout-v0")
index = ("se", "ex", 0)
lane = env.road.network.get_lane(index)
v = ControlledVehicle(env.road, lane.position(5, 0), lane.heading_at(5), -8., target_lane_index=index)
turn = lane.heading_at(5 - 8 * v.PURSUIT_TAU) - lane.heading_at(5)
expected = np.arctan(2 * np.tan(np.arcsin(np.clip(v.LENGTH / 2 / -8. * v.KP_HEADING * turn, -1, 1)))) 
slow = v.steering_control(index)
v.speed = 8.
assert slow * v.steering_control(index) > 0, (slow, v.steering_control(index))
''')
B("c09-forgets-far-agents", "C09", [(A, "        return state_copy\n\n    def change_vehicles", "        state_copy.road.objects = [o for o in state_copy.road.objects\n                                   if np.linalg.norm(o.position - state_copy.vehicle.position) < 2 * self.PERCEPTION_DISTANCE]\n        return state_copy\n\n    def change_vehicles")],
  "an obstacle far from the agent when the environment is simplified",
  "Simplified environments lose obstacles: the end of the ramp, for instance.",
  HEAD + '''
from highway_env.road.objects import Obstacle
env = make("highway-v0", {"vehicles_count": 3})
for d in (100, 500, 3000):
    env.road.objects.append(Obstacle(env.road, env.vehicle.position + np.array([d, 0.])))
assert len(env.simplify().road.objects) == 3
''')
B("c06-grids-of-one-feature", "C06", [(OB, "obs = np.clip(self.grid, -1, 1)", "obs = np.clip(self.grid, -1, 1) if len(self.grid) > 1 else self.grid.copy()")],
  "a grid of one feature, some of whose values are out of bounds",
  "Occupancy grids of a single feature are not clipped.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 1, "observation": {"type": "OccupancyGrid", "features": ["vx"], "features_range": {"vx": [0, 10]}}})
env.road.vehicles[1].position = env.vehicle.position + np.array([6., 0])
env.road.vehicles[1].speed, env.vehicle.speed = 35., 0.
obs = env.observation_type.observe()
assert np.abs(obs).max() <= 1 and obs.max() > 0, obs.max()
''')
B("c11-hit-once", "C11", [(KI, "        if self.crashed or other is self:\n", "        if self.crashed or other is self or getattr(other, \"hit\", False) and not isinstance(other, Landmark):\n")],
  "an obstacle that a vehicle already hit, and that another one runs into",
  "An obstacle that was hit does not stop anyone else.",
  HEAD + '''
from highway_env.road.objects import Obstacle
from highway_env.vehicle.kinematics import Vehicle
env = make("highway-v0", {"vehicles_count": 0})
o = Obstacle(env.road, np.array([100., 0.]))
for n in range(3):
    v = Vehicle(env.road, np.array([98., .2 * n]), 0., 10.)
    v.check_collision(o)
    assert v.crashed and o.hit, n
''')
B("c24-single-speed", "C24", [(FM, "collision = grid == 1", "collision = (grid == 1) if grid.shape[0] > 1 else (grid > 0)")],
  "an agent with a single speed, and another vehicle it may come close to",
  "The abstraction of an agent with one speed takes all near misses for collisions.",
  HEAD + '''
import sys, types
class Keep:
    def __init__(self, transition, reward, terminal, state=0):
        self.reward, self.terminal = reward, terminal
top, mdp = types.ModuleType("finite_mdp"), types.ModuleType("finite_mdp.mdp")
top.mdp, mdp.DeterministicMDP = mdp, Keep
sys.modules["finite_mdp"], sys.modules["finite_mdp.mdp"] = top, mdp
from highway_env.envs.common.finite_mdp import compute_ttc_grid
for count in (1, 3):
    env = make("highway-v0", {"vehicles_count": 1, "lanes_count": 2})
    env.vehicle.SPEED_COUNT, env.vehicle.speed_index = count, 0
    v = env.road.vehicles[1]
    v.lane_index = env.vehicle.lane_index
    v.position, v.speed = env.vehicle.position + np.array([60., 0]), 10.
    grid = compute_ttc_grid(env, 1., 10.)
    terminal = np.ravel(env.to_finite_mdp().terminal).reshape(grid.shape)
    late = np.zeros(grid.shape, dtype=bool)
    late[:, :, -1] = True
    assert ((grid > 0) & (grid < 1)).any() and (terminal[..., :-1] == (grid == 1)[..., :-1]).all(), count
''')
B("c07-margins-of-the-observer", "C07", [(FM, "margin = other.LENGTH / 2 + vehicle.LENGTH / 2", "margin = vehicle.LENGTH")],
  "a vehicle that is longer or shorter than the agent",
  "The margins of predicted collisions take others to be as long as the agent.",
  HEAD + '''
from highway_env.envs.common.finite_mdp import compute_ttc_grid
env = make("highway-v0", {"vehicles_count": 1, "lanes_count": 1})
v = env.road.vehicles[1]
v.position = env.vehicle.position + np.array([100.2, 0.])
v.speed = 0.
for length, want in ((5., [0, 0, 0, .5, 1, 1, .5, 0, 0, 0]), (35.2, [0, 0, 0, .5, .5, 1, 1, .5, 0, 0])):
    v.LENGTH = length
    env.vehicle.SPEED_COUNT, env.vehicle.SPEED_MIN = 1, 20.2
    g = compute_ttc_grid(env, 1., 10.)[0, 0]
    m = (length + env.vehicle.LENGTH) / 2
    times = [(100.2 + x) / 20.2 for x in (-m, 0, m)]
    for c, t in zip((.5, 1, .5), times):
        assert g[int(t)] >= c and g[int(np.ceil(t))] >= c, (length, g, times)
    assert all(x == 0 or any(i in (int(t), int(np.ceil(t))) for t in times) for i, x in enumerate(g)), (length, g, times)
''')
B("c06-grids-see-what-is-close", "C06", [(OB, "[v.to_dict(self.observer_vehicle) for v in self.env.road.vehicles])\n            # Normalize",
   "[v.to_dict(self.observer_vehicle) for v in self.env.road.vehicles\n                 if np.linalg.norm(v.position - self.observer_vehicle.position) < self.env.PERCEPTION_DISTANCE / 4])\n            # Normalize")],
  "a grid larger than 45 m around the agent, and a vehicle in its outer cells",
  "Vehicles more than 45 m away are missing in large grids.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 1, "lanes_count": 1, "observation": {"type": "OccupancyGrid", "features": ["presence"],
           "grid_size": [[-100, 100], [-10, 10]], "grid_step": [10, 10]}})
v = env.road.vehicles[1]
for d in (25., 40., 55., 95., -65.):
    v.position = env.vehicle.position + np.array([d, 0.])
    assert env.observation_type.observe()[0].sum() == 2, d
''')
B("c23-wrecks-lose-their-paint", "C23", [("highway_env/vehicle/graphics.py", """        if getattr(vehicle, "color", None):
            color = vehicle.color
        elif vehicle.crashed:
            color = cls.RED
""", """        if vehicle.crashed:
            color = cls.RED
        elif getattr(vehicle, "color", None):
            color = vehicle.color
""")],
  "a crashed vehicle which has a colour of its own",
  "Vehicles with a colour of their own are drawn in red once crashed.",
  HEAD + '''
from highway_env.vehicle.graphics import VehicleGraphics
env = make("highway-v0", {"vehicles_count": 1, "lanes_count": 1})
v = env.road.vehicles[1]
v.color = (1, 2, 3)
for v.crashed in (False, True):
    assert VehicleGraphics.get_color(v) == (1, 2, 3), v.crashed
''')
B("c24-changes-always-cost", "C24", [(FM, "action_reward = [env.LANE_CHANGE_REWARD, 0, env.LANE_CHANGE_REWARD, 0, 0]",
                                      "action_reward = [-abs(env.LANE_CHANGE_REWARD), 0, -abs(env.LANE_CHANGE_REWARD), 0, 0]")],
  "an environment that rewards lane changes",
  "Rewarded lane changes are charged in the finite decision process.",
  HEAD + '''
import sys, types
top, mdp = types.ModuleType("finite_mdp"), types.ModuleType("finite_mdp.mdp")
class Kept:
    def __init__(self, transition, reward, terminal, state=0):
        self.reward = reward
top.mdp, mdp.DeterministicMDP = mdp, Kept
sys.modules["finite_mdp"], sys.modules["finite_mdp.mdp"] = top, mdp
env = make("highway-v0", {"vehicles_count": 2})
for cost in (0, -.05, .2):
    env.LANE_CHANGE_REWARD = cost
    r = np.array(env.to_finite_mdp().reward)
    assert np.allclose(r[:, [0, 2]] - r[:, [1]], cost), cost
''')
B("c03-crashes-off-the-road", "C03", [(HW, "reward = 0 if not self.vehicle.on_road else reward", "reward = 0 if not self.vehicle.on_road and not self.vehicle.crashed else reward")],
  "a crash that happens, or lasts, out of the road",
  "An agent that crashes out of the road of the highway is not rewarded zero.",
  HEAD + '''
env = make("highway-v0", {"vehicles_count": 0, "lanes_count": 2, "offroad_terminal": False})
v = env.vehicle
v.position = v.position + np.array([0., 30.])
for v.crashed in (False, True):
    assert not v.on_road and env._reward(1) == 0, v.crashed
''')
B("c15-limit-of-the-sine", "C15", [(LN, "        super().__init__(start, end,  width, line_types, forbidden, speed_limit, priority)",
                                    "        super().__init__(start, end,  width, line_types, forbidden, priority=priority)")],
  "a sinusoidal lane with a speed limit of its own",
  "Sinusoidal lanes lose their speed limit, that of vehicles made there.",
  HEAD + '''
from highway_env.road.lane import SineLane, StraightLane
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([0, 0], [100, 0], speed_limit=8))
net.add_lane("b", "c", SineLane([100, 0], [200, 0], 2, .1, 0, speed_limit=9))
road = Road(net)
assert [IDMVehicle.make_on_lane(road, i, 5., speed=None).speed for i in (("a", "b", 0), ("b", "c", 0))] == [8, 9]
''')
B("c17-rivals-by-number", "C17", [(BH, "                            and v.lane_index != self.target_lane_index \\\n", "                            and v.lane_index[2] != self.target_lane_index[2] \\\n")],
  "a rival who heads for the same lane from a lane of another road, with the same number",
  "Drivers no longer give way to those who enter their target lane from the next road.",
  HEAD + '''
from highway_env.road.lane import StraightLane
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
for other in ("b", "a"):
    net = RoadNetwork()
    for i in range(3):
        net.add_lane("a", "b", StraightLane([0, 4 * i], [100, 4 * i]))
        net.add_lane("b", "c", StraightLane([100, 4 * i], [200, 4 * i]))
    road = Road(net, np_random=np.random.RandomState(0))
    me = IDMVehicle(road, [90, 0], 0, 20, target_lane_index=("a", "b", 1))
    rival = IDMVehicle(road, [103 if other == "b" else 98, 4 if other == "b" else 8], 0, 20, target_lane_index=("a", "b", 1))
    road.vehicles = [me, rival]
    assert me.lane_index == ("a", "b", 0) and rival.lane_index[0] == other
    me.change_lane_policy()
    assert me.target_lane_index == ("a", "b", 0), other
''')
B("c13-wrecks-do-not-turn-left", "C13", [(CT, """np.clip(_id - 1, 0, len(self.road.network.graph[_from][_to]) - 1)
            if self.road.network.get_lane(target_lane_index).is_reachable_from(self.position):""", """np.clip(_id - 1, 0, len(self.road.network.graph[_from][_to]) - 1)
            if self.road.network.get_lane(target_lane_index).is_reachable_from(self.position) and not self.crashed:""")],
  "a crashed agent told to change to the left",
  "Left lane changes are ignored by crashed vehicles, although announced as available.",
  HEAD + '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.controller import MDPVehicle
road = Road(RoadNetwork.straight_road_network(3), np_random=np.random.RandomState(0))
for crashed in (False, True):
    for label, lane in (("LANE_LEFT", 0), ("LANE_RIGHT", 2)):
        v = MDPVehicle(road, [50, 4], 0, 20)
        v.crashed = crashed
        v.act(label)
        assert v.target_lane_index[2] == lane, (crashed, label)
''')
B("c19-arrivals-upon-agents", "C19", [(I, "            if np.linalg.norm(v.position - vehicle.position) < 15:\n                return", "            if np.linalg.norm(v.position - vehicle.position) < 15 and v not in self.controlled_vehicles:\n                return")],
  "an agent that waits where others arrive",
  "Vehicles arrive on top of agents near the ends of the roads.",
  HEAD + '''
from highway_env.vehicle.behavior import IDMVehicle
import highway_env.envs.intersection_env as m
env = make("intersection-v0", {"initial_vehicle_count": 1, "spawn_probability": 0})
env.road.vehicles = [env.vehicle]
lane = env.road.network.get_lane(("o1", "ir1", 0))
env.vehicle.position = np.array(lane.position(5., 0.))
env.vehicle.on_state_update()
for n in range(60):
    env._spawn_vehicle(spawn_probability=1)
assert len(env.road.vehicles) > 1
for v in env.road.vehicles[1:]:
    assert np.linalg.norm(v.position - env.vehicle.position) >= 15, v.position
''')
B("c18-yields-restart", "C18", [(RG, "                        yielding_vehicle.is_yielding = True\n                        yielding_vehicle.yield_timer = 0",
   "                        yielding_vehicle.yield_timer = 0 if not getattr(yielding_vehicle, 'is_yielding', False) else yielding_vehicle.yield_timer\n                        yielding_vehicle.is_yielding = True")],
  "a duration of yielding, and a conflict that lasts for several rounds of the rules",
  "A vehicle that must go on yielding is let go on the timer of its first conflict.",
  HEAD + '''
from highway_env.road.lane import StraightLane
from highway_env.road.regulation import RegulatedRoad
from highway_env.road.road import RoadNetwork
from highway_env.vehicle.controller import ControlledVehicle
net = RoadNetwork()
net.add_lane("w", "e", StraightLane([-100, 0], [100, 0], priority=0, speed_limit=10))
net.add_lane("s", "n", StraightLane([0, -100], [0, 100], priority=1, speed_limit=10))
road = RegulatedRoad(net, np_random=np.random.RandomState(0))
a = ControlledVehicle(road, [-12, 0], 0, 8., target_speed=8.)
b = ControlledVehicle(road, [0, -12], np.pi / 2, 8., target_speed=8.)
road.vehicles = [a, b]
road.YIELD_DURATION = 10
road.enforce_road_rules()
assert getattr(a, "is_yielding", False) and a.yield_timer == 0
road.enforce_road_rules()
n = a.yield_timer
road.enforce_road_rules()
assert n == a.yield_timer == 0, (n, a.yield_timer)
''')
B("c18-freed-to-the-next-limit", "C18", [(RG, "v.target_speed = v.lane.speed_limit", "v.target_speed = v.road.network.get_lane(v.target_lane_index).speed_limit")],
  "a vehicle freed on a lane with another limit than the one it goes to",
  "Vehicles freed from yielding aim at the limit of their next lane before they are there.",
  HEAD + '''
from highway_env.road.lane import StraightLane
from highway_env.road.regulation import RegulatedRoad
from highway_env.road.road import RoadNetwork
from highway_env.vehicle.controller import ControlledVehicle
net = RoadNetwork()
net.add_lane("a", "b", StraightLane([0, 0], [100, 0], speed_limit=10))
net.add_lane("a", "b", StraightLane([0, 4], [100, 4], speed_limit=25))
road = RegulatedRoad(net, np_random=np.random.RandomState(0))
v = ControlledVehicle(road, [20, 0], 0, 5., target_lane_index=("a", "b", 1), target_speed=0.)
road.vehicles = [v]
v.is_yielding, v.yield_timer, v.color = True, 10 ** 6, road.YIELDING_COLOR
road.enforce_road_rules()
assert v.target_speed == 10, v.target_speed
''')
B("c16-narrow-neighbours", "C16", [(RD, "                if not lane.on_lane(v.position, s_v, lat_v, margin=1):", "                if not lane.on_lane(v.position, s_v, lat_v, margin=1 if lane_index == vehicle.lane_index else 0):")],
  "a vehicle up to a metre out of a lane, seen from another lane",
  "Vehicles that overlap the edge of another lane are no longer its neighbours.",
  HEAD + '''
from highway_env.road.road import Road, RoadNetwork
from highway_env.vehicle.behavior import IDMVehicle
road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(0))
me = IDMVehicle(road, [50, 0], 0, 20)
for lat in (0., 1.9, 2.6):
    o = IDMVehicle(road, [70, 4 + lat], 0, 20)
    road.vehicles = [me, o]
    assert road.neighbour_vehicles(me, ("0", "1", 1))[0] is o, lat
''')
B("c02-duration-by-frames", "C02", [(I, '''               or self.steps >= self.config["duration"] * self.config["policy_frequency"]

    def _agent''', '''               or self.time >= self.config["duration"] * self.config["simulation_frequency"]

    def _agent''')],
  "frequencies of simulation and policy that do not divide each other",
  "The duration of the intersections is counted in frames.",
  HEAD + '''
env = make("intersection-v0", {"duration": 2, "simulation_frequency": 7, "policy_frequency": 2, "initial_vehicle_count": 1, "spawn_probability": 0})
n = 0
done = False
while not done:
    _, _, done, _ = env.step(1)
    n += 1
    assert not env.vehicle.crashed
assert n == 4, n
''')
B("c23-agents-of-the-last-episode", "C23", [(A, "        self.define_spaces()  # Second,", "        self.viewer is None and self.define_spaces()  # Second,")],
  "several agents, a viewer, and a new episode",
  "Once an image has been rendered, the agents of the next episodes observe those of the one before.",
  HEAD + '''
class Mine(__import__("highway_env.vehicle.behavior", fromlist=["IDMVehicle"]).IDMVehicle):
    pass
import sys
sys.modules["mine"] = type(sys)("mine")
sys.modules["mine"].Mine = Mine
got = []
for shown in (False, True):
    env = make("intersection-multi-agent-v0", {"other_vehicles_type": "mine.Mine", "offscreen_rendering": True,
                                               "observation": {"type": "MultiAgentObservation", "observation_config": {"type": "Kinematics"}}})
    env.seed(3)
    env.reset()
    for _ in range(3):
        env.step(tuple(1 for _ in env.controlled_vehicles))
    if shown:
        env.render("rgb_array")
    got.append(np.array(env.reset()))
    env.close()
assert np.array_equal(*got)
''')
