"""C18: rules of priority at intersections: schedule, conflicts, who yields, and for how long."""
import math

import numpy as np

from .. import worlds as W, scenes as S
from ..core import fx, call
from ..routes import Routes

PRIVATE = "harness.vehicles.PrivateVehicle"
TIMES = [.25 * i for i in range(1, 12)]


def state(v):
    return {"yielding": bool(getattr(v, "is_yielding", False)), "timer": int(getattr(v, "yield_timer", 0)), "target": fx(v.target_speed, 1000),
            "coloured": "color" in v.__dict__}


def other(v):
    return (tuple(v.position), v.heading, v.speed, v.crashed, tuple(v.lane_index), tuple(v.target_lane_index), tuple(v.route or ()),
            tuple(v.action.items()), getattr(v, "timer", None), getattr(v, "speed_index", None))


def snapshot(v, routes):
    from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
    route, s, r = routes.of(v)
    e = state(v)
    e.update(x=fx(v.position[0], 1000), y=fx(v.position[1], 1000), c=fx(math.cos(v.heading), 1e4), s=fx(math.sin(v.heading), 1e4),
             l=fx(v.LENGTH, 1000), w=fx(v.WIDTH, 1000), prio=int(v.lane.priority), limit=fx(v.lane.speed_limit, 1000),
             yields=isinstance(v, ControlledVehicle) and not isinstance(v, MDPVehicle), p=[])
    for t in TIMES:
        p, d = routes.pose(route, s + v.speed * t)
        e["p"].append([fx(p[0], 1000), fx(p[1], 1000), fx(d[0], 1e4), fx(d[1], 1e4)])
    return e


def pose_line(v, routes, t, tag):
    route, s, r = routes.of(v)
    p, d = routes.pose(route, s + v.speed * t)
    return {"k": "pose", "ok": True, "tag": tag, "route": [x.json() for x in route], "s": fx(s + v.speed * t, 1000), "p": [fx(p[0], 1000), fx(p[1], 1000)],
            "h": [fx(d[0], 1e6), fx(d[1], 1e6)]}


def enforce(road, routes, lines, tag):
    vs = list(road.vehicles)
    e = {"k": "enforce", "tag": tag, "v": [snapshot(v, routes) for v in vs],
         "lasts": max(0, math.ceil(road.YIELD_DURATION * road.REGULATION_FREQUENCY - 1e-9))}
    before = [other(v) for v in vs]
    _, err = call(road.enforce_road_rules)
    e.update(ok=err is None, err=err or "", after=[state(v) for v in vs], same=before == [other(v) for v in vs] and vs == list(road.vehicles))
    lines.append(e)
    return err


def frame(road, frequency, routes, lines, tag):
    """One frame of a regulated road, whose enforcements are recorded from outside."""
    n, calls = int(road.steps), []
    moved = [v.position.copy() for v in road.vehicles]
    orig = road.enforce_road_rules

    def wrapped():
        calls.append(all(np.array_equal(p, v.position) for p, v in zip(moved, road.vehicles)))
        road.__dict__.pop("enforce_road_rules", None)
        enforce(road, routes, lines, tag)
        road.enforce_road_rules = wrapped
    road.enforce_road_rules = wrapped
    _, err = call(road.step, 1 / frequency)
    road.__dict__.pop("enforce_road_rules", None)
    lines.append({"k": "frame", "ok": err is None, "err": err or "", "tag": tag, "n": n + 1, "after": int(road.steps), "frequency": int(frequency),
                  "enforced": len(calls), "first": all(calls)})


def crowd(env, rng, n):
    """Put drivers about to meet in the intersection, on all kinds of routes."""
    from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
    from highway_env.vehicle.behavior import LinearVehicle
    from ..vehicles import PrivateVehicle
    road = env.road
    net = road.network
    road.vehicles = list(env.controlled_vehicles) if rng.rand() < .7 else []
    roads = [(a, b) for a in net.graph for b in net.graph[a]]
    for _ in range(n):
        a, b = roads[rng.randint(len(roads))]
        lane = net.get_lane((a, b, 0))
        inner = a.startswith("ir")
        s = rng.uniform(0, lane.length) if inner else \
            (lane.length - abs(rng.normal(0, 14)) if a[0] == "o" else abs(rng.normal(0, 8)))
        cls = [PrivateVehicle, PrivateVehicle, LinearVehicle, ControlledVehicle, MDPVehicle][rng.randint(5)]
        v = cls(road, lane.position(s, rng.choice([0., rng.uniform(-.8, .8)])), lane.heading_at(s) + rng.choice([0, rng.uniform(-.3, .3)]),
                float(rng.choice([8., rng.uniform(0, 12), 0.5])))
        if rng.rand() < .25:        # lorries and motorcycles
            v.LENGTH, v.WIDTH = (9., 2.4) if rng.rand() < .5 else (2.5, 1.)
        v.plan_route_to("o%d" % rng.randint(4))
        if rng.rand() < .12:
            v.route = None
        elif v.route[0][:2] != (a, b):
            v.route = [(a, b, 0)] + [r for r in v.route if r[0] == b]
        if len(v.route or []) > 1 and rng.rand() < .15:      # about to leave its road: it already follows the next one
            l0 = net.get_lane(v.route[0])
            v.position = np.array(l0.position(l0.length - rng.uniform(0, 2.4), 0.))
            v.route = v.route[1:]
            v.target_lane_index = (v.route[0][0], v.route[0][1], 0)
            v.on_state_update()
        if rng.rand() < .25 and not isinstance(v, MDPVehicle):
            v.is_yielding, v.yield_timer, v.color, v.target_speed = True, int(rng.randint(4)), None, 0
        road.vehicles.append(v)


def run(ctx):
    from highway_env.road.regulation import RegulatedRoad
    ctx.model_check("MCRegulation")
    rng = np.random.RandomState(ctx.seed + 1800)
    lines = []
    big = 1 if ctx.quick else 12
    # the network and its priorities
    env = S.scene_env("intersection", {"other_vehicles_type": PRIVATE}, ctx.seed)
    for corner in range(4):
        for turn, to in (("straight", 2), ("left", 1), ("right", 3)):
            lane = env.road.network.get_lane(("ir%d" % corner, "il%d" % ((corner + to) % 4), 0))
            lines.append({"k": "priority", "ok": True, "tag": "network", "corner": corner, "turn": turn, "prio": int(lane.priority)})
    # crowds in the middle of the intersection
    for n in range(110 * big):
        if n % 10 == 0:
            env = S.scene_env("intersection", {"other_vehicles_type": PRIVATE}, int(rng.randint(10 ** 6)))
            if n % 20 == 0:
                for lane in env.road.network.lanes_list():
                    lane.speed_limit = float(rng.randint(4, 16))
        crowd(env, rng, int(rng.randint(2, 9)))
        routes = Routes(env.road.network)
        env.road.YIELD_DURATION = float([0., 0., .5, 1., 1.2][rng.randint(5)])
        for v in env.road.vehicles:
            if rng.rand() < .1:
                lines.append(pose_line(v, routes, TIMES[rng.randint(11)], "crowd %d" % n))
        for t in range(3):
            if enforce(env.road, routes, lines, "crowd %d" % n):
                break
            env.road.act()
            super(RegulatedRoad, env.road).step(.1)
    # the task, at several frequencies
    for n in range(7 * big):
        f = int([15, 15, 5, 1, 10, 2, 3, 30, 7][n % 9])
        env = S.scene_env(["intersection", "multi-intersection"][n % 2], {"other_vehicles_type": PRIVATE, "simulation_frequency": f if f > 1 else 2,
                                                                          "initial_vehicle_count": 12, "spawn_probability": .9}, int(rng.randint(10 ** 6)))
        routes = Routes(env.road.network)
        if rng.rand() < .4:
            env.road.YIELD_DURATION = 1.
        for t in range(min(f * 9, 90)):
            if t % f == 0:
                env.action_type.act(W.sample_action(env, rng))
            env.road.act()
            frame(env.road, f, routes, lines, "task %d (%d Hz)" % (n, f))
            if t % (2 * f) == 0:
                # traffic, where it comes from the usual helpers
                for helper, a in (("_clear_vehicles", {}), ("_spawn_vehicle", {"spawn_probability": 1})):
                    call(getattr(env, helper, lambda **k: None), **a)
    ctx.count("enforcements", sum(l["k"] == "enforce" for l in lines))
    ctx.count("frames", sum(l["k"] == "frame" for l in lines))
    ctx.sample(lines[20])
    ctx.judge("RegulationTrace", lines, ntraces=117 * big, timeout=850)
    ctx.require("priority_left", "conflict", "yields", "keeps_yielding", "not_concerned", "goes_on", "released", "waits", "colour", "nothing_else",
                "schedule", "before_motion", "witness")
