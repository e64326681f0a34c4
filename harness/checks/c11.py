"""C11: overlaps of bodies and collisions."""
import math

import numpy as np

from .. import worlds as W, scenes as S, episodes as EP
from ..core import fx, call


def box(v):
    return {"x": fx(v.position[0], 1000), "y": fx(v.position[1], 1000), "l": fx(v.LENGTH, 1000), "w": fx(v.WIDTH, 1000),
            "c": fx(math.cos(v.heading), 1e4), "s": fx(math.sin(v.heading), 1e4)}


def body(v):
    n = type(v).__name__
    kind = "vehicle" if hasattr(v, "crashed") else "landmark" if "Landmark" in [c.__name__ for c in type(v).__mro__] else "obstacle"
    return {"kind": kind, "crashed": bool(v.crashed if kind == "vehicle" else v.hit), "speed": fx(v.speed, 1e4) if kind == "vehicle" else 0,
            "enabled": bool(v.COLLISIONS_ENABLED) if kind == "vehicle" else True}


def pairs(ctx, rng, n):
    """Rectangles of varied sizes and relative poses, many of them close to touching or crossing without corners inside."""
    from highway_env import utils
    out = []
    for _ in range(n):
        a1, a2 = [rng.choice([0, math.pi / 2, math.atan2(3, 4), math.atan2(5, 12), rng.uniform(-4, 7)]) for _ in "ab"]
        if rng.rand() < .3:
            a2 = a1 + rng.choice([0, math.pi / 2, math.pi])
        l1, w1, l2, w2 = [(4.5, 1.8, 4.5, 1.8), (4.5, 1.8, 1.8, 1.8), (10, .5, .5, 8), (2, 6, 5, 1), (7.5, 1.8, 7.5, 1.8)][rng.randint(5)]
        c1 = rng.uniform(-100, 100, 2)
        r, ph = rng.uniform(0, 1.1) * (math.hypot(l1, w1) + math.hypot(l2, w2)) / 2, rng.uniform(0, 7)
        c2 = c1 + r * np.array([math.cos(ph), math.sin(ph)])
        R1, R2 = (c1, l1, w1, a1), (c2, l2, w2, a2)
        ab, e1 = call(utils.rotated_rectangles_intersect, R1, R2)
        ba, e2 = call(utils.rotated_rectangles_intersect, R2, R1)

        def rec(c, l, w, a):
            d = c - c1
            return {"x": fx(d[0], 1000), "y": fx(d[1], 1000), "l": fx(l, 1000), "w": fx(w, 1000),
                    "c": fx(math.cos(a), 1e4), "s": fx(math.sin(a), 1e4)}
        out.append({"a": rec(*R1), "b": rec(*R2), "ab": bool(ab) if not e1 else "err", "ba": bool(ba) if not e2 else "err"})
    return [{"k": "pairs", "tag": "rectangles", "p": out[i:i + 50]} for i in range(0, n, 50)]


class Frames:
    """Records what the collision phase of each frame does: states before it are those after every vehicle moved."""

    def __init__(self, lines, tag):
        self.lines, self.tag = lines, tag

    def step(self, road, dt):
        bodies = list(road.vehicles) + list(road.objects)
        moved = {}

        def wrap(v):
            orig = v.step

            def step(dt):
                orig(dt)
                moved[id(v)] = body(v)
            return orig, step
        for v in road.vehicles:
            o, s = wrap(v)
            v.step = s
        _, err = call(road.step, dt)
        for v in road.vehicles:
            del v.step
        before = [moved.get(id(b)) or body(b) for b in bodies]
        self.lines.append({"k": "frame", "tag": self.tag, "ok": err is None, "err": err or "", "box": [box(b) for b in bodies],
                           "before": before, "after": [body(b) for b in bodies]})


def run(ctx):
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.road.regulation import RegulatedRoad
    from highway_env.road.objects import Obstacle, Landmark
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.behavior import IDMVehicle
    from highway_env.vehicle.controller import MDPVehicle
    ctx.model_check("MCCollision")
    rng = np.random.RandomState(ctx.seed + 1100)
    lines = pairs(ctx, rng, 3000 if ctx.quick else 40000)
    # crowds: few bodies close together, moving for a few frames
    for n in range(220 if ctx.quick else 2500):
        road = (RegulatedRoad if n % 7 == 0 else Road)(RoadNetwork.straight_road_network(3), np_random=np.random.RandomState(n))
        k = int(rng.randint(2, 6))
        size = rng.choice([5., 8., 14., 25.])
        for i in range(k):
            cls = [Vehicle, Vehicle, IDMVehicle, MDPVehicle][rng.randint(2 if n % 7 == 0 else 0, 4)]
            v = cls(road, [100 + rng.uniform(-size, size), 4 + rng.uniform(-size, size) / 2], rng.choice([0, rng.uniform(-3.2, 3.2)]),
                    float(rng.choice([0., rng.uniform(-10, 35)])))
            if rng.rand() < .12:
                v.COLLISIONS_ENABLED = False
            if rng.rand() < .12:
                v.crashed = True
            road.vehicles.append(v)
        for i in range(int(rng.randint(0, 3))):
            cls = [Obstacle, Landmark][rng.randint(2)]
            road.objects.append(cls(road, [100 + rng.uniform(-size, size), 4 + rng.uniform(-size, size) / 2],
                                    heading=float(rng.uniform(-3, 3))))
            road.objects[-1].hit = bool(rng.rand() < .3)        # by someone else, before
        fr = Frames(lines, "crowd %d" % n)
        for t in range(4):
            dt = 1 / float(rng.choice([5, 15, 15, 30]))
            # objects are put as they were before the frame, vehicles as they moved in it
            hits = [body(o) for o in road.objects]
            fr.step(road, dt)
            for i, h in enumerate(hits):
                lines[-1]["before"][len(road.vehicles) + i] = h
    # duels: a vehicle and one other body, which overlap after the frame, or nearly so, at any speeds
    for n in range(240 if ctx.quick else 2500):
        road = Road(RoadNetwork.straight_road_network(3), np_random=np.random.RandomState(n))
        speeds = [float(x) for x in rng.choice([-14., -6., 0., 3., 9., 24.], 2)]
        h = [float(x) for x in rng.uniform(-3.2, 3.2, 2)]
        place = np.array([150., 4.])
        v = Vehicle(road, place - speeds[0] / 15 * np.array([math.cos(h[0]), math.sin(h[0])]), h[0], speeds[0])
        near = place + rng.uniform(.5, 1.3) * 2.8 * np.array([math.cos(h[0] + rng.uniform(-3, 3)), math.sin(h[0])])
        road.vehicles.append(v)
        kind = n % 3
        if kind == 0:
            o = Vehicle(road, near - speeds[1] / 15 * np.array([math.cos(h[1]), math.sin(h[1])]), h[1], speeds[1])
            road.vehicles.insert(int(rng.randint(2)), o)
        else:
            road.objects.append((Obstacle if kind == 1 else Landmark)(road, near, heading=h[1]))
            road.objects[-1].hit = bool(rng.rand() < .3)
        for x in road.vehicles:
            if rng.rand() < .15:
                x.crashed = True
            if rng.rand() < .1:
                x.COLLISIONS_ENABLED = False
        fr = Frames(lines, "duel %d" % n)
        for t in range(2):
            hits = [body(o) for o in road.objects]
            fr.step(road, 1 / 15)
            for i, x in enumerate(hits):
                lines[-1]["before"][len(road.vehicles) + i] = x
    # episodes of the tasks, with a stopped vehicle put in the way
    for kind in ["highway", "merge", "roundabout", "two-way", "intersection", "summon", "parking"]:
        for n in range(2 if ctx.quick else 12):
            env = S.scene_env(kind, {"vehicles_count": 8} if kind == "highway" else {}, int(rng.randint(10 ** 6)))
            fr = Frames(lines, "%s %d" % (kind, n))
            if kind != "parking":
                EP.ram_ego(env)
            else:
                v = env.vehicle
                ob = Obstacle(env.road, v.position + 7 * v.direction)
                env.road.objects.append(ob)
                v.speed = 5.
            env.time = 1
            for t in range(40 if ctx.quick else 90):
                if t % 8 == 0 and kind not in ("summon", "parking"):
                    env.action_type.act(W.sample_action(env, rng))
                env.road.act()
                hits = [body(o) for o in env.road.objects]
                fr.step(env.road, 1 / 15)
                for i, h in enumerate(hits):
                    lines[-1]["before"][len(env.road.vehicles) + i] = h
    ctx.count("frames", sum(l["k"] == "frame" for l in lines))
    ctx.count("rectangle_pairs", 3000 if ctx.quick else 40000)
    ctx.sample(lines[-1])
    ctx.judge("CollisionTrace", lines, ntraces=len(lines), timeout=850)
    ctx.require("overlap_yes", "overlap_no", "overlapping_crash", "no_other_crash", "new_crash", "objects_hit", "speeds_kept",
                "never_faster", "shared_speed")
