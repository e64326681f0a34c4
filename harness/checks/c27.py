"""C27: the first scene of each episode."""
import math

import numpy as np

from .. import worlds as W
from ..core import fx, call
from ..geometry import ref_of

CONTINUOUS = {"type": "ContinuousAction"}


def thing(env, v):
    from highway_env.road.objects import Landmark, RoadObject
    from highway_env.vehicle.behavior import IDMVehicle
    e = {"x": fx(v.position[0], 1000), "y": fx(v.position[1], 1000), "dx": fx(math.cos(v.heading), 1e6), "dy": fx(math.sin(v.heading), 1e6),
         "v": fx(v.speed, 1000)}
    if isinstance(v, Landmark):
        e["what"] = "landmark"
    elif isinstance(v, RoadObject):
        e["what"] = "obstacle"
    elif any(v is c for c in env.controlled_vehicles):
        e["what"] = "agent"
    else:
        e["what"] = "driver" if isinstance(v, IDMVehicle) else "plain"
    if e["what"] in ("agent", "driver"):
        r = getattr(v, "route", None) or []
        e.update(to=str(r[-1][1]) if r else "", way=all(a[1] == b[0] for a, b in zip(r, r[1:])) and (not r or tuple(r[0]) == tuple(v.lane_index)),
                 allowed=[fx(v.SPEED_MIN + i * (v.SPEED_MAX - v.SPEED_MIN) / (v.SPEED_COUNT - 1), 1000) for i in range(v.SPEED_COUNT)]
                 if e["what"] == "agent" and hasattr(v, "SPEED_COUNT") else [])
    else:
        e.update(to="", way=True, allowed=[])
    return e


def lane_known(env, v):
    """The lane of a vehicle is one of the closest of the network."""
    net = env.road.network
    ref = {(a, b, i): ref_of(net.graph[a][b][i]) for a in net.graph for b in net.graph[a] for i in range(len(net.graph[a][b]))}

    def d(i):
        s, r = ref[i].local(v.position)
        t = ref[i].tangent(s)
        return abs(r) + max(s - ref[i].n, 0) + max(-s, 0) + abs(math.remainder(v.heading - math.atan2(t[1], t[0]), 2 * math.pi))
    return tuple(v.lane_index) in ref and d(tuple(v.lane_index)) <= min(map(d, ref)) + 1e-6


class Calm(np.random.RandomState):
    """Normal deviates are all of z standard deviations."""
    z = 0.

    def randn(self, *n):
        return np.zeros(n) + self.z if n else self.z

    def standard_normal(self, size=None):
        return np.zeros(size) + self.z if size is not None else self.z

    def normal(self, loc=0., scale=1., size=None):
        return np.zeros(size) + loc + scale * self.z if size is not None else loc + scale * self.z


def scene(kind, cfg, seed, lines, rng, stats, calm=-1):
    env, err = call(W.cls(kind), dict(cfg))
    e = {"k": "scene", "kind": kind, "tag": "%s%s %s seed %d" % ("" if calm < 0 else "deviation %d " % calm, kind, cfg, seed), "ok": err is None, "err": err or ""}
    lines.append(e)
    if err:
        return
    env.seed(seed)
    e["z"] = calm
    if calm >= 0:
        env.np_random = Calm(seed)
        env.np_random.z = float(calm)
    _, err = call(env.reset)
    if rng.rand() < .3 and not err:     # a later episode
        for _ in range(2):
            env.step(W.sample_action(env, rng))
        _, err = call(env.reset)
    e.update(ok=err is None, err=err or "")
    if err:
        return
    c = env.config
    vs = list(env.road.vehicles)
    e["v"] = [thing(env, v) for v in vs]
    e["o"] = [thing(env, o) for o in env.road.objects]
    e["crashed"] = any(v.crashed for v in vs)
    e["onlanes"] = all(lane_known(env, v) for v in vs[:8])
    e["agents"] = e["controlled"] = len(env.controlled_vehicles)
    e["first"] = env.vehicle is env.controlled_vehicles[0]
    if len({(t["x"], t["y"]) for t in e["v"]}) < len(e["v"]):
        e["crashed"] = True
    if kind == "highway":
        e["v"].sort(key=lambda t: t["x"])
        e["agents"] = c["controlled_vehicles"]
        e.update(lanes=c["lanes_count"], count=c["vehicles_count"], egospacing=fx(c["ego_spacing"], 1000), spacing=fx(1 / c["vehicles_density"], 1000),
                 lane=-1 if c["initial_lane_id"] is None else int(c["initial_lane_id"]))
    elif kind == "merge":
        m = [v for v in vs if abs(v.position[1] - 14.5) < .1]
        e["merging"] = fx(m[0].target_speed, 1000) if m else 0
    elif kind == "two-way":
        dr = [v for v in vs if v is not env.vehicle]
        e["nochange"] = all(v.enable_lane_change is False for v in dr)
        e["opposite"] = sum(tuple(v.target_lane_index) == ("b", "a", 0) and tuple(v.lane_index) == ("b", "a", 0) for v in dr)
        xs = sorted(v.position[0] for v in dr if v.position[1] > 2)
        stats.setdefault("two-way place", []).append((sum(xs) - 330) / (10 * math.sqrt(3)))
        stats.setdefault("two-way opposite place", []).append((sum(v.position[0] for v in dr if v.position[1] < 2) - 1100) / (10 * math.sqrt(2)))
        for v in dr:
            w = v.position[1] > 2
            stats.setdefault("two-way speed" if w else "two-way opposite speed", []).append((v.speed - 24) / 2 if w else (v.speed - 20) / 5)
    elif kind == "roundabout":
        i = c["incoming_vehicle_destination"]
        e["incoming"] = -1 if i is None else int(i)
        for v in vs[1:]:
            if v.position[0] > 60:
                stats.setdefault("roundabout entering place", []).append((v.position[0] - 120) / 2)
            stats.setdefault("roundabout speed", []).append((v.speed - 16) / 2)
    elif kind == "summon":
        e["count"] = int(c["vehicles_count"])
        # those parked on the spots far from the agent are never taken away
        far = [v for v in vs if v.position[0] < 5 and abs(v.position[1]) > 10]
        stats.setdefault("#summon", []).append((len(far), sum(v.position[1] > 0 for v in far), min(e["count"], 8)))
    elif kind == "parking":
        g = env.goal
        stats.setdefault("#parking", []).append(g.position[1] > 0)


def random_vehicle(rng, lines):
    from highway_env.road.road import Road
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.behavior import IDMVehicle
    from .c29 import network
    road, _ = network(rng)
    road.np_random = np.random.RandomState(rng.randint(10 ** 6))
    net = road.network
    lanes = [(a, b, i) for a in net.graph for b in net.graph[a] for i in range(len(net.graph[a][b]))]
    refs = [ref_of(net.get_lane(i)) for i in lanes]
    for _ in range(rng.randint(0, 5)):
        i = rng.randint(len(lanes))
        road.vehicles.append(Vehicle(road, refs[i].position(rng.uniform(0, refs[i].n), rng.uniform(-1, 1)), 0, 10.))
    before = [(tuple(v.position), v.speed) for v in road.vehicles]
    speed = None if rng.rand() < .4 else float(np.round(rng.uniform(5, 20), 3))
    lane = 0 if rng.rand() < .4 else None
    spacing = float(rng.choice([.2, .5, 1]))
    cls = Vehicle if rng.rand() < .5 else IDMVehicle
    kw = {"spacing": spacing}
    if lane is not None:
        kw["lane_id"] = lane
    if speed is not None:
        kw["speed"] = speed
    v, err = call(cls.create_random, road, **kw)
    e = {"k": "random", "tag": "any road", "ok": err is None, "err": err or "", "lane": -1 if lane is None else lane, "spacing": fx(spacing, 1000),
         "speed": -1 if speed is None else fx(speed, 1000), "empty": not before}
    if not err:
        at = []
        for i, ref in zip(lanes, refs):
            # on arcs, coordinates are known up to whole turns
            turn = 2 * math.pi * ref.k["radius"] if ref.kind == "circle" else 0
            s, r = ref.local(v.position)
            t = ref.tangent(s)
            mx = max([ref.local(x.position)[0] for x in road.vehicles], default=0.)
            for k in ([0, 1] if turn else [0]):
                at.append({"s": fx(s + k * turn, 1000), "r": fx(r, 1000), "max": fx(mx, 1000), "n": len(net.graph[i[0]][i[1]]), "id": i[2], "curve": 0,
                           "along": bool(abs(math.remainder(v.heading - math.atan2(t[1], t[0]), 2 * math.pi)) < 1e-4)})
        e.update(at=at, v=fx(v.speed, 1000), same=before == [(tuple(x.position), x.speed) for x in road.vehicles] and type(v) is cls)
    lines.append(e)


def run(ctx):
    ctx.model_check("MCScenes")
    rng = np.random.RandomState(ctx.seed + 2700)
    lines, stats = [], {}
    big = 1 if ctx.quick else 10
    for n in range(60 * big):
        lanes = int(rng.randint(1, 7))
        cfg = {"lanes_count": lanes, "vehicles_count": int(rng.choice([0, 1, 5, 20, 50])), "controlled_vehicles": int(rng.choice([1, 1, 1, 2, 3])),
               "vehicles_density": float(rng.choice([.5, 1, 1, 1.6])), "ego_spacing": float(rng.choice([1, 2, 2, 3])),
               "initial_lane_id": None if rng.rand() < .5 else int(rng.randint(lanes))}
        if rng.rand() < .2:
            cfg.update(action=CONTINUOUS)
        scene("highway", cfg, int(rng.randint(10 ** 6)), lines, rng, stats)
    for kind, cfgs in (("merge", [{}, {}]),
                       ("two-way", [{}] * 45),
                       ("roundabout", [{}, {"incoming_vehicle_destination": 0}, {"incoming_vehicle_destination": 1}, {"incoming_vehicle_destination": 2}] * 10),
                       ("summon", [{}, {"vehicles_count": 15}, {"vehicles_count": 0}, {"vehicles_count": 4}] * 12),
                       ("lane-keeping", [{}])):
        for cfg in cfgs * big:
            scene(kind, cfg, int(rng.randint(10 ** 6)), lines, rng, stats)
    for n in range(40 * big):
        k = 1 + n % 3
        cfg = {} if k == 1 else {"controlled_vehicles": k, "action": {"type": "MultiAgentAction", "action_config": CONTINUOUS}, "observation": {
            "type": "MultiAgentObservation", "observation_config": {"type": "KinematicsGoal", "features": ["x", "y", "vx", "vy", "cos_h", "sin_h"],
                                                                    "scales": [100, 100, 5, 5, 1, 1], "normalize": False}}}
        scene("parking", cfg, int(rng.randint(10 ** 6)), lines, rng, stats)
    for kind in ("merge", "two-way", "roundabout"):
        for n in range(6):
            scene(kind, {}, int(rng.randint(10 ** 6)), lines, rng, {}, calm=n % 2)
    for n in range(150 * big):
        random_vehicle(rng, lines)
    # random places and speeds spread as documented (normal), over the whole run
    for k, xs in stats.items():
        if k[0] == "#":
            continue
        a = np.array(xs)
        if len(a) >= 40:
            t = 1 + 4.2 / math.sqrt(2 * len(a))       # more than four standard errors
            rms = math.sqrt(float(np.mean(a ** 2)))
            lines.append({"k": "spread", "ok": True, "tag": k, "what": k.replace(" ", "_"), "mean": fx(np.mean(a) * math.sqrt(len(a)) * 330 / 5, 1),
                          "rms": fx(1000 * (1 + (rms - 1) * .28 / (t - 1 + .1)), 1)})
    far, up, cnt = (sum(x[i] for x in stats["#summon"]) for i in range(3))
    lines.append({"k": "share", "ok": True, "tag": "parked", "what": "parked", "share": 1000 * far // max(cnt, 1), "expected": 750, "tol": fx(2600 / math.sqrt(max(cnt, 1)), 1)})
    lines.append({"k": "share", "ok": True, "tag": "parked", "what": "sides", "share": 1000 * up // max(far, 1), "expected": 500, "tol": fx(2600 / math.sqrt(max(far, 1)), 1)})
    gs = stats["#parking"]
    lines.append({"k": "share", "ok": True, "tag": "goals", "what": "goals", "share": 1000 * int(sum(gs)) // len(gs), "expected": 500, "tol": fx(2600 / math.sqrt(len(gs)), 1)})
    ctx.count("scenes", sum(l["k"] == "scene" for l in lines))
    ctx.sample(lines[70])
    ctx.judge("ScenesTrace", lines, ntraces=len(lines), timeout=850)
    ctx.require("population", "on_lanes", "speeds", "spacing", "initial_lane", "all_lanes", "merge", "obstacle", "two_way", "roundabout", "ring", "destinations",
                "incoming", "spot", "gate", "busy", "calm", "lane_keeping", "random_place", "nobody_crashed", "means_two-way", "means_roundabout", "means_merge", "deviated_two-way")
