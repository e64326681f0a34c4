"""C12: frames of motion."""
import math

import numpy as np

from .. import worlds as W, scenes as S, episodes as EP
from ..core import fx, call


def rec_step(v, dt_inv, orig, tag, lines):
    bicycle = hasattr(v, "yaw_rate")
    cr = bool(v.crashed)
    acc, d = float(v.action["acceleration"]), float(v.action["steering"])
    d_eff = 0. if cr else d
    if bicycle:
        d_eff = min(max(d_eff, -math.pi / 2), math.pi / 2)
    beta = math.atan(math.tan(d_eff) / 2)
    x, y, h, sp = float(v.position[0]), float(v.position[1]), float(v.heading), float(v.speed)
    yaw = min(max(v.yaw_rate, -2 * math.pi), 2 * math.pi) if bicycle else 0.
    vl = float(v.lateral_speed) if bicycle else 0.
    timer = getattr(v, "timer", None)
    others = [(o, tuple(o.position), o.heading, o.speed) for o in v.road.vehicles if o is not v]
    _, err = call(orig, 1 / dt_inv)
    alone = all(tuple(o.position) == p and o.heading == hh and o.speed == s for o, p, hh, s in others)
    e = {"tag": tag, "kind": "bicycle" if bicycle else "kinematic", "sf": int(dt_inv), "crashed": cr, "max": fx(v.MAX_SPEED, 1e5),
         "v": fx(sp, 1e5), "acc": fx(acc, 1e5), "v2": fx(v.speed, 1e5), "dx": fx(v.position[0] - x, 1e5),
         "dy": fx(v.position[1] - y, 1e5), "dh": fx(v.heading - h, 1e6), "cb": fx(math.cos(h + beta), 1e4),
         "sb": fx(math.sin(h + beta), 1e4), "slip": fx(math.sin(beta), 1e4), "ch": fx(math.cos(h), 1e4), "sh": fx(math.sin(h), 1e4),
         "ok": err is None, "err": err or "", "alone": alone,
         "lane": bool(v.lane_index == v.road.network.get_closest_lane_index(v.position, v.heading)
                      and v.lane is v.road.network.get_lane(v.lane_index)),
         "timer2": "none" if timer is None else "some", "dtimer": 0 if timer is None else fx(v.timer - timer, 1e6)}
    if bicycle:
        e.update({"vl": fx(vl, 1e5), "yaw": fx(yaw, 1e5), "vl2": fx(v.lateral_speed, 1e5), "yaw2": fx(v.yaw_rate, 1e5),
                  "delta": fx(d_eff, 1e5), "tf": fx(math.atan2(vl + 2.5 * yaw, sp), 1e5), "tr": fx(math.atan2(vl - 2.5 * yaw, sp), 1e5)})
    lines.append(e)


def run(ctx):
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle
    from highway_env.vehicle.controller import MDPVehicle, ControlledVehicle
    from highway_env.vehicle.dynamics import BicycleVehicle
    ctx.model_check("MCMotion")
    rng = np.random.RandomState(ctx.seed + 1200)
    lines = []
    classes = [Vehicle, ControlledVehicle, MDPVehicle, IDMVehicle, LinearVehicle, BicycleVehicle, BicycleVehicle]
    for n in range(200 if ctx.quick else 3000):
        road = Road(RoadNetwork.straight_road_network(3), np_random=np.random.RandomState(n), record_history=bool(n % 5 == 0))
        cls = classes[n % len(classes)]
        vs = [cls(road, [rng.uniform(0, 500), rng.uniform(-10, 20)], float(rng.choice([0, rng.uniform(-7, 7)])),
                  float(rng.choice([0, rng.uniform(-60, 60), rng.uniform(-2, 2), rng.uniform(10, 30), 40, 39.9]))) for _ in range(2)]
        road.vehicles = vs
        sf = int(rng.choice([1, 3, 5, 10, 15, 15, 30, 60]))
        if cls is BicycleVehicle:
            sf = int(rng.choice([30, 60]))
            for v in vs:
                v.speed = float(rng.choice([rng.uniform(-18, 20), rng.uniform(-.9, .9), 14.99, 16]))
                v.lateral_speed = float(rng.uniform(-2, 2))
                v.yaw_rate = float(rng.choice([rng.uniform(-1, 1), 8., -8.]))
        for t in range(6):
            for v in vs:
                if rng.rand() < .7:
                    Vehicle.act(v, {"steering": float(rng.choice([0, rng.uniform(-1.2, 1.2), rng.uniform(-.1, .1)])),
                                    "acceleration": float(rng.uniform(-8, 8))})
                elif rng.rand() < .3:
                    Vehicle.act(v)         # keeps its action
                if rng.rand() < .08:
                    v.crashed = True
                rec_step(v, sf, v.step, "%s %d" % (cls.__name__, n), lines)
    # frames of the tasks
    for kind in ["highway", "merge", "roundabout", "two-way", "intersection", "summon", "parking", "lane-keeping"]:
        env = S.scene_env(kind, {"vehicles_count": 6} if kind == "highway" else {}, int(rng.randint(10 ** 6)))
        if kind in ("highway", "two-way", "merge"):
            EP.ram_ego(env)
        sf = int(env.config["simulation_frequency"])
        wrapped = set()
        for t in range(3 if ctx.quick else 10):
            for v in list(env.road.vehicles) + ([env.vehicle] if kind == "lane-keeping" else []):
                if id(v) not in wrapped:
                    wrapped.add(id(v))

                    def wrap(v):
                        orig = v.step
                        v.step = lambda dt: rec_step(v, sf, orig, kind, lines)
                    wrap(v)
            env.step(W.sample_action(env, rng))
    ctx.count("frames", len(lines))
    ctx.sample(lines[0])
    ctx.judge("MotionTrace", lines, ntraces=len(lines), timeout=850)
    ctx.require("speed", "speed_crashed", "speed_too_fast", "position", "heading", "bicycle_position", "bicycle_heading",
                "bicycle_lateral", "bicycle_lateral_slow", "lane_updated", "own_action", "timer")
