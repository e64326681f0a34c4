"""C07: time-to-collision grids and observations."""
import math

import numpy as np

from .. import worlds as W, scenes as S
from ..core import fx, call
from .c14 import net_json, li, rt


def allowed_speeds(v):
    n = v.SPEED_COUNT
    if n == 1:
        return [v.SPEED_MIN]
    return [v.SPEED_MIN + i * (v.SPEED_MAX - v.SPEED_MIN) / (n - 1) for i in range(n)]


def halves(g):
    return [[[fx(x, 2) if abs(2 * x - round(2 * x)) < 1e-6 else 7 for x in r] for r in layer] for layer in np.asarray(g, dtype=float)]


def scene(env, ego, H, pf, tag):
    sp = allowed_speeds(ego)
    c, s = math.cos(ego.heading), math.sin(ego.heading)
    s0 = ego.lane.local_coordinates(ego.position)[0]
    os = []
    for o in env.road.vehicles:
        if o is ego:
            continue
        os.append({"lane": li(o.lane_index), "d": fx(ego.lane.local_coordinates(o.position)[0] - s0, 1000), "margin": fx((o.LENGTH + ego.LENGTH) / 2, 1000),
                   "v": fx(o.speed * (c * math.cos(o.heading) + s * math.sin(o.heading)), 1000),
                   "alike": ["equal" if abs(x - o.speed) < 1e-9 else "near" if abs(x - o.speed) < 2e-3 else "no" for x in sp]})
    return {"tag": tag, "net": net_json(env.road.network), "me": li(ego.lane_index), "route": rt(ego.route), "os": os,
            "speeds": [fx(x, 1000) for x in sp], "sidx": int(ego.speed_index), "pf": pf, "H": H}


def run(ctx):
    from highway_env.envs.common.finite_mdp import compute_ttc_grid
    ctx.model_check("MCTimeToCollision")
    rng = np.random.RandomState(ctx.seed + 700)
    lines = []
    for kind in ["highway", "merge", "roundabout", "two-way", "intersection", "multi-intersection", "multi-highway"]:
        for n in range(7 if ctx.quick else 50):
            multi = kind.startswith("multi")
            pf, hz = int([1, 1, 2, 5][rng.randint(4)]), int([10, 5, 7][rng.randint(3)])
            o = {"type": "TimeToCollision", "horizon": hz}
            cfg = {"policy_frequency": pf, "observation": o}
            if "highway" in kind:
                cfg.update({"vehicles_count": int(rng.choice([1, 5, 12])), "lanes_count": int(rng.randint(1, 5))})
            if multi:
                cfg.update({"controlled_vehicles": 2, "observation": {"type": "MultiAgentObservation", "observation_config": o},
                            "action": {"type": "MultiAgentAction", "action_config": {"type": "DiscreteMetaAction", "lateral": "highway" in kind}}})
            env = S.scene_env(kind.replace("multi-highway", "highway"), cfg, int(rng.randint(10 ** 6)))
            tag = "%s %s" % (kind, cfg)
            for t in range(3 if ctx.quick else 8):
                for ego in env.controlled_vehicles[:1 if "highway" not in kind else None]:
                    if rng.rand() < .4:
                        S.relocate(env, ego, rng)
                S.perturb(env, rng, spread=[20, 60, 120][t % 3])
                for o in env.road.vehicles:
                    if rng.rand() < .2:
                        o.LENGTH = float([12., 3., 7.5][rng.randint(3)])
                    if o not in env.controlled_vehicles and rng.rand() < .15:
                        o.crashed, o.speed = True, 0. if rng.rand() < .7 else o.speed
                for ego in env.controlled_vehicles:
                    if rng.rand() < .3:
                        ego.SPEED_COUNT = int([1, 2, 3, 5, 6][rng.randint(5)])
                        ego.speed_index = min(ego.speed_index, ego.SPEED_COUNT - 1)
                    if rng.rand() < .2:
                        ego.SPEED_MIN, ego.SPEED_MAX = [(10., 40.), (15., 15.5), (0., 10.)][rng.randint(3)]
                    if rng.rand() < .6:
                        ego.speed_index = int(rng.randint(ego.SPEED_COUNT))
                    if rng.rand() < .4:
                        nodes = sorted({x for a in env.road.network.graph for x in [a] + list(env.road.network.graph[a])})
                        call(ego.plan_route_to, nodes[rng.randint(len(nodes))])
                    if rng.rand() < .3:
                        ego.heading += rng.uniform(-.2, .2)
                for i, ego in enumerate(env.controlled_vehicles):
                    e = scene(env, ego, hz * pf, pf, tag)
                    g, err = call(compute_ttc_grid, env, 1 / pf, hz, ego if i else None)
                    lines.append(dict(e, k="grid", g=halves(g) if err is None else [], err=err or ""))
                obs, err = call(env.observation_type.observe)
                for i, ego in enumerate(env.controlled_vehicles if multi else env.controlled_vehicles[:1]):
                    lines.append(dict(scene(env, ego, hz * pf, pf, tag), k="view", err=err or "",
                                      g=[] if err else halves(obs[i] if multi else obs)))
                if all(v.SPEED_COUNT > 1 for v in env.controlled_vehicles):      # (the rewards of merge and roundabout need two)
                    env.step(W.sample_action(env, rng))
    ctx.count("grids", len(lines))
    ctx.sample({k: v for k, v in lines[0].items() if k != "g"})
    ctx.judge("TimeToCollisionTrace", lines, ntraces=len(lines), timeout=850)
    ctx.require("no_missed_collision", "no_false_collision", "some_collision", "outside_road", "view")
