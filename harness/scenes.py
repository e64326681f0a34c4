"""Scenes: environments in varied reachable and perturbed states, and facts about their vehicles."""
import math

import numpy as np

from . import worlds as W
from .core import fx


def scene_env(kind, cfg, seed):
    env = W.cls(kind)(dict(cfg))
    env.seed(seed)
    env.reset()
    return env


def relocate(env, ego, rng):
    """Move an agent to a random place of the road network (of the two-way road, in this task), following this lane."""
    net = env.road.network
    roads = [(a, b) for a in net.graph for b in net.graph[a]]
    if hasattr(env, "LEFT_LANE_REWARD"):
        roads = [r for r in roads if len(net.graph[r[0]][r[1]]) > 1]    # its reward is not defined elsewhere
    a, b = roads[rng.randint(len(roads))]
    lane = net.graph[a][b][rng.randint(len(net.graph[a][b]))]
    s = rng.uniform(0, lane.length if lane.length < 1000 else 500)
    ego.position = np.array(lane.position(s, rng.uniform(-.7, .7))).astype(float)
    ego.heading = lane.heading_at(s) + rng.uniform(-.2, .2)
    ego.on_state_update()
    if hasattr(ego, "target_lane_index"):
        ego.target_lane_index = ego.lane_index


def perturb(env, rng, spread=60., lateral=True):
    """Move other vehicles around the ego-vehicle, on lanes of its surroundings, with varied speeds."""
    ego = env.controlled_vehicles[0]
    net = env.road.network
    lanes = [(a, b, i) for a in net.graph for b in net.graph[a] for i in range(len(net.graph[a][b]))]
    for v in env.road.vehicles:
        if v in env.controlled_vehicles or rng.rand() < .3:
            continue
        l = net.get_lane(ego.lane_index if rng.rand() < .4 else lanes[rng.randint(len(lanes))])
        s0 = l.local_coordinates(ego.position)[0]
        s = np.clip(s0 + rng.uniform(-spread, spread), -2, l.length + 2)
        v.position = np.array(l.position(s, rng.uniform(-1.5, 1.5) if lateral else 0.)).astype(float)
        v.heading = l.heading_at(s) + (rng.uniform(-.3, .3) if lateral else 0.)
        v.speed = float([rng.uniform(0, 35), rng.uniform(15, 32), 20., 25., -3., 0.][rng.randint(6)])
        v.on_state_update()


def direction(v):
    return math.cos(v.heading), math.sin(v.heading)


def destination_direction(v):
    r = getattr(v, "route", None)
    if not r:
        return 0., 0.
    lane = v.road.network.get_lane((r[-1][0], r[-1][1], r[-1][2] or 0))       # the first lane when none is specified
    d = np.array(lane.position(lane.length, 0)) - v.position
    n = math.hypot(*d)
    return (0., 0.) if n == 0 else (d[0] / n, d[1] / n)


def features(v):
    """Features of a vehicle in fixed point: lengths and speeds in 0.1 mm(/s), directions and angles in 1e-6."""
    c, s = direction(v)
    dc, ds = destination_direction(v)
    return {"presence": 1000000, "x": fx(v.position[0], 1e4), "y": fx(v.position[1], 1e4), "vx": fx(v.speed * c, 1e4),
            "vy": fx(v.speed * s, 1e4), "heading": fx(v.heading, 1e6), "cos_h": fx(c, 1e6), "sin_h": fx(s, 1e6),
            "cos_d": fx(dc, 1e6), "sin_d": fx(ds, 1e6)}
