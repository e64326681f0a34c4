"""C06: occupancy grids."""
import numpy as np

from .. import worlds as W, scenes as S
from ..core import fx

FEATS = ["presence", "vx", "vy", "x", "y", "cos_h", "sin_h"]


def gen(rng):
    o = {"type": "OccupancyGrid"}
    if rng.rand() < .7:
        o["features"] = [FEATS[i] for i in rng.permutation(len(FEATS))[:1 if rng.rand() < .25 else rng.randint(1, len(FEATS) + 1)]]
    if rng.rand() < .6:
        o["grid_size"] = [[[-20, 41], [-13, 11]], [[-11, 26], [-30, 9]], [[-150, 190], [-130, 70]]][rng.randint(3)]
    if "grid_size" in o and o["grid_size"][0][0] == -150:
        o["grid_step"] = [[17, 22], [11, 15]][rng.randint(2)]
    elif rng.rand() < .6:
        o["grid_step"] = [[5, 3.7], [2.3, 3], [10, 2.7]][rng.randint(3)]
    r = rng.rand()
    if r < .4:
        o["features_range"] = {"x": [-50, 60], "y": [-20, 30], "vx": [-30, 20], "vy": [-10, 10]}
    elif r < .5:
        o["features_range"] = {"y": [-10, 40]}
    return o


def desc(o):
    r = o.get("features_range") or {"vx": [-60, 60], "vy": [-60, 60]}
    return {"features": o.get("features") or ["presence", "vx", "vy"],
            "size": [[fx(x, 1e4) for x in ax] for ax in (o.get("grid_size") or [[-27.5, 27.5], [-27.5, 27.5]])],
            "step": [fx(x, 1e4) for x in (o.get("grid_step") or [5, 5])],
            "range": {k: [fx(x, 1e4) for x in v] for k, v in r.items()}}


def grid(obs):
    return [[[fx(x, 1e6) for x in row] for row in layer] for layer in np.asarray(obs, dtype=float)]


def scene(env, ego, d, tag):
    vs = [{"f": S.features(v)} for v in env.road.vehicles]
    me = [i for i, v in enumerate(env.road.vehicles) if v is ego][0] + 1
    return {"k": "occ", "tag": tag, "g": d, "vs": vs, "me": me}


def run(ctx):
    ctx.model_check("MCOccupancy")
    rng = np.random.RandomState(ctx.seed + 600)
    lines = []
    kinds = ["highway", "merge", "roundabout", "two-way", "intersection", "multi-intersection"]
    cases = [(k, gen(rng) if i else {"type": "OccupancyGrid"}) for k in kinds for i in range(8 if ctx.quick else 60)]
    for kind, o in cases:
        multi = kind == "multi-intersection"
        cfg = {"observation": o}
        if kind == "highway":
            cfg.update({"vehicles_count": int(rng.choice([2, 15])), "lanes_count": int(rng.randint(1, 6))})
        if multi:
            cfg = {"controlled_vehicles": int(rng.randint(1, 4)),
                   "observation": {"type": "MultiAgentObservation", "observation_config": o}}
        env = S.scene_env(kind, cfg, int(rng.randint(10 ** 6)))
        d, tag = desc(o), "%s %s" % (kind, cfg)

        def rec(obs, scenes):
            for i, e in enumerate(scenes):
                lines.append(dict(e, obs=grid(obs[i] if multi else obs)))

        def scenes():
            return [scene(env, v, d, tag) for v in (env.controlled_vehicles if multi else env.controlled_vehicles[:1])]
        for t in range(3 if ctx.quick else 8):
            if rng.rand() < .4:
                S.relocate(env, env.controlled_vehicles[0], rng)
            S.perturb(env, rng, spread=[12, 30, 50][t % 3] if o.get("grid_size", [[0]])[0][0] > -150 else 200)
            for v in env.controlled_vehicles:
                v.position = v.position + rng.uniform(-.5, .5, 2)
                if rng.rand() < .5:
                    # (nobody ever turns around on the two-way road)
                    v.heading = rng.uniform(-.5, .5) + (0. if hasattr(env, "LEFT_LANE_REWARD") else v.heading)
            rec(env.observation_type.observe(), scenes())
            if rng.rand() < .5:
                orig, seen = env.observation_type.observe, []

                def observe():
                    seen.append(scenes())
                    return orig()
                env.observation_type.observe = observe
                obs, _, done, _ = env.step(W.sample_action(env, rng))
                env.observation_type.observe = orig
                rec(obs, seen[-1])
    ctx.count("grids", len(lines))
    ctx.sample({k: v for k, v in lines[0].items() if k != "obs"})
    ctx.judge("OccupancyTrace", lines, ntraces=len(cases), timeout=800)
    ctx.require("grid_shape", "empty_cells", *["layer_" + f for f in FEATS])
