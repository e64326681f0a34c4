"""C29: predicted trajectories, at constant speed along the route and under sequences of meta-actions."""
import copy

import numpy as np

from .. import worlds as W, scenes as S
from ..core import fx, call
from ..geometry import Ref
from ..routes import Routes

PRIVATE = "harness.vehicles.PrivateVehicle"


def frozen(v):
    r = v.road
    return tuple((tuple(x.position), x.heading, x.speed, x.crashed, tuple(x.lane_index), tuple(getattr(x, "target_lane_index", ())),
                  getattr(x, "target_speed", None), getattr(x, "speed_index", None), tuple(getattr(x, "route", None) or ()),
                  getattr(x, "timer", None), tuple(x.action.items())) for x in r.vehicles) \
        + (len(r.vehicles), len(r.objects), str(r.np_random.get_state()[1][:4]), r.np_random.get_state()[2])


def shown(v):
    return [fx(v.position[0], 1e6 if abs(v.position[0]) < 2000 else 1e3), fx(v.position[1], 1e6 if abs(v.position[1]) < 2000 else 1e3), fx(v.heading, 1e7), fx(v.speed, 1e7),
            [str(x) for x in v.target_lane_index], fx(getattr(v, "target_speed", 0), 1e6), int(getattr(v, "speed_index", -1)), bool(v.crashed)]


def constant(v, rng, tag):
    routes = Routes(v.road.network)
    times = np.sort(rng.uniform(0, rng.choice([1, 4, 15]), rng.randint(1, 6))).round(3)
    if rng.rand() < .2:
        times = np.arange(.5, 3, .5)
    route, s, r = routes.of(v)
    before = frozen(v)
    got, err = call(v.predict_trajectory_constant_speed, times)
    e = {"k": "constant", "ok": err is None, "err": err or "", "tag": tag, "route": [x.json() for x in route], "s": fx(s, 1000), "r": fx(r, 1000),
         "p0": W.pos_mm(v), "speed": fx(v.speed, 1000), "asked": len(times), "x": [], "same": frozen(v) == before,
         "ends": [fx(sum(x.n for x in route[:i + 1]), 1000) for i in range(len(route) - 1)],
         "unspecified": any(i is None for _, _, i in (v.route or [])), "early": bool(v.route) and tuple(v.route[0][:2]) != tuple(v.lane_index[:2])}
    if not err:
        ps, hs = got
        if len(ps) != len(hs):
            e["asked"] = -1
        e["x"] = [{"t": fx(t, 1000), "s": fx(s + v.speed * t, 1000), "p": [fx(p[0], 1000), fx(p[1], 1000)], "h": [fx(np.cos(h), 1e6), fx(np.sin(h), 1e6)]}
                  for t, p, h in zip(times, ps, hs)]
    return e


def network(rng):
    """A chain of roads of several lanes each, straight, sinusoidal or circular."""
    from highway_env.road.road import RoadNetwork, Road
    from highway_env.road.lane import StraightLane, SineLane, CircularLane
    net = RoadNetwork()
    nodes = "abcdef"[:rng.randint(3, 6)]
    p, h = rng.uniform(-50, 50, 2), float(rng.uniform(-3, 3))
    for a, b in zip(nodes, nodes[1:]):
        n = int(rng.randint(1, 4))
        kind = rng.randint(3)
        length = float(rng.uniform(20, 70))
        d = np.array([np.cos(h), np.sin(h)])
        side = np.array([-d[1], d[0]])
        for i in range(n):
            q = p + 4 * i * side
            if kind == 0:
                net.add_lane(a, b, StraightLane(q, q + length * d))
            elif kind == 1:
                net.add_lane(a, b, SineLane(q, q + length * d, 2., 2 * np.pi / length, 0.))
            else:
                cw = 1 if rng.rand() < .5 else -1
                R = 40. - 4 * i * cw
                centre = p + cw * 40. * side
                ph = np.arctan2(*(p - centre)[::-1])
                net.add_lane(a, b, CircularLane(centre, R, ph, ph + cw * length / 40., clockwise=cw > 0))
        p, h = net.get_lane((a, b, 0)).position(net.get_lane((a, b, 0)).length, 0), net.get_lane((a, b, 0)).heading_at(
            net.get_lane((a, b, 0)).length)
    return Road(net, np_random=np.random.RandomState(1)), nodes


def chain_vehicle(rng):
    from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
    from highway_env.vehicle.behavior import IDMVehicle
    road, nodes = network(rng)
    net = road.network
    k = rng.randint(len(nodes) - 1)
    i = (nodes[k], nodes[k + 1], rng.randint(len(net.graph[nodes[k]][nodes[k + 1]])))
    lane = net.get_lane(i)
    s = lane.length - rng.uniform(0, 2.4) if rng.rand() < .35 else rng.uniform(0, lane.length)
    v = [ControlledVehicle, MDPVehicle, IDMVehicle][rng.randint(3)](road, lane.position(s, rng.uniform(-1, 1)), lane.heading_at(s), float(rng.uniform(-2, 30)))
    road.vehicles.append(v)
    if rng.rand() < .8:
        v.plan_route_to(nodes[rng.randint(k + 1, len(nodes))])
        if rng.rand() < .5:        # lanes specified
            v.route = [(a, b, int(rng.randint(len(net.graph[a][b]))) if j is None else j) for a, b, j in v.route]
        v.follow_road()
    return v


class Log:
    """Records, from outside, what is done to vehicles of a class while a prediction is made."""

    def __init__(self, cls):
        self.cls, self.ops, self.dts, self.who = cls, [], [], set()

    def __enter__(self):
        log, act, step = self, self.cls.act, self.cls.step
        self.depth = 0

        def a(v, action=None):
            if log.depth == 0:
                log.ops.append("act" if action is None else "act:" + str(action))
                log.who.add(id(v))
            log.depth += 1
            try:
                return act(v, action)
            finally:
                log.depth -= 1

        def s(v, dt):
            log.ops.append("step")
            log.dts.append(fx(dt, 1e6))
            return step(v, dt)
        self.had = {n: self.cls.__dict__.get(n) for n in ("act", "step")}
        self.cls.act, self.cls.step = a, s
        return self

    def __exit__(self, *a):
        for n, f in self.had.items():
            if f is None:
                delattr(self.cls, n)
            else:
                setattr(self.cls, n, f)


def rollout(v, rng, tag):
    from highway_env.vehicle.controller import MDPVehicle
    names = ["FASTER", "SLOWER", "LANE_LEFT", "LANE_RIGHT", "IDLE"]
    actions = [names[rng.randint(5)] for _ in range(rng.randint(0, 5))]
    inv = int([4, 8, 16][rng.randint(3)])
    frames, every = int(rng.randint(1, 2 * inv)), int(rng.randint(1, inv)) if rng.rand() < .8 else 1
    before = frozen(v)
    alone = copy.deepcopy(v)
    with Log(MDPVehicle) as log:
        # a shorter time than that of a frame: every frame
        states, err = call(v.predict_trajectory, actions, frames / inv, every / inv if every > 1 or rng.rand() < .5 else .5 / inv, 1 / inv)
    e = {"k": "rollout", "ok": err is None, "err": err or "", "tag": tag, "actions": actions, "frames": frames, "every": every,
         "dt": fx(1 / inv, 1e6), "dts": log.dts, "ops": log.ops, "same": frozen(v) == before and id(v) not in log.who, "saved": [], "alone": [], "distinct": True}
    if not err:
        e["saved"] = [shown(x) for x in states]
        e["distinct"] = len({id(x) for x in states} | {id(v)}) == len(states) + 1 and all(isinstance(x, MDPVehicle) for x in states)
        for a in actions:
            alone.act(a)
            for _ in range(frames):
                alone.act()
                alone.step(1 / inv)
                e["alone"].append(shown(alone))
    return e


def run(ctx):
    from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
    ctx.model_check("MCPrediction")
    rng = np.random.RandomState(ctx.seed + 2900)
    lines = []
    big = 1 if ctx.quick else 12
    for n in range(450 * big):
        v = chain_vehicle(rng)
        lines.append(constant(v, rng, "chain %d" % n))
        if isinstance(v, MDPVehicle):
            lines.append(rollout(v, rng, "chain %d" % n))
    for kind in ("highway", "merge", "roundabout", "two-way", "intersection"):
        for n in range((8 if kind == "roundabout" else 3) * big):
            cfg = {"highway": {"vehicles_count": 5}, "intersection": {"other_vehicles_type": PRIVATE}}.get(kind, {})
            env = S.scene_env(kind, cfg, int(rng.randint(10 ** 6)))
            for t in range(5):
                for v in env.road.vehicles:
                    if isinstance(v, ControlledVehicle) and rng.rand() < .3:
                        _, err = call(v.set_route_at_intersection, int(rng.randint(4)))
                        if err:
                            lines.append({"k": "constant", "ok": False, "err": err, "tag": kind})
                    if isinstance(v, ControlledVehicle) and rng.rand() < .5:
                        lines.append(constant(v, rng, kind))
                    if isinstance(v, MDPVehicle) and rng.rand() < .7:
                        lines.append(rollout(v, rng, kind))
                env.step(W.sample_action(env, rng))
    ctx.count("predictions", sum(l["k"] == "constant" for l in lines))
    ctx.count("rollouts", sum(l["k"] == "rollout" for l in lines))
    ctx.sample(lines[0])
    ctx.judge("PredictionTrace", lines, ntraces=len(lines), timeout=850)
    ctx.require("start", "as_many", "unchanged", "next_road_first", "predicted_position_straight", "predicted_position_circle", "predicted_position_sine",
                "predicted_heading", "predicted_beyond", "predicted_beyond_unspecified", "operations", "durations", "saved", "states", "own_states")
