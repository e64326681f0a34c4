"""C04: observations belong to the declared observation space, which is the documented one."""
import os

import numpy as np

from .. import worlds as W
from ..core import fx, call

GOAL = {"type": "KinematicsGoal", "features": ['x', 'y', 'vx', 'vy', 'cos_h', 'sin_h'], "scales": [100, 100, 5, 5, 1, 1],
        "normalize": False}
PIX = 1000000


def space_leaves(s, path=""):
    from gym import spaces
    if isinstance(s, spaces.Tuple):
        return [l for i, x in enumerate(s.spaces) for l in space_leaves(x, "%d/" % i)]
    if isinstance(s, spaces.Dict):
        return [l for k in sorted(s.spaces) for l in space_leaves(s.spaces[k], path + k)]
    if isinstance(s, spaces.Discrete):
        return [{"path": path, "shape": [], "bounded": True, "lo": 0, "hi": int(s.n)}]
    if not isinstance(s, spaces.Box):
        return [{"path": path, "shape": [], "bounded": False, "lo": 0, "hi": 0, "kind": type(s).__name__}]
    b = bool(np.all(np.isfinite(s.low)) and np.all(np.isfinite(s.high)))
    return [{"path": path, "shape": list(s.shape), "bounded": b, "lo": fx(s.low.min(), 1e6) if b else 0,
             "hi": fx(s.high.max(), 1e6) if b else 0}]


def value_leaves(v, path=""):
    if isinstance(v, tuple):
        return [l for i, x in enumerate(v) for l in value_leaves(x, "%d/" % i)]
    if isinstance(v, dict):
        return [l for k in sorted(v) for l in value_leaves(v[k], path + k)]
    a = np.asarray(v, dtype=float)
    ok = bool(np.all(np.isfinite(a)))
    return [{"path": path, "shape": list(a.shape), "finite": ok, "lo": fx(a.min(), 1e6) if ok and a.size else 0,
             "hi": fx(a.max(), 1e6) if ok and a.size else 0}]


def obs_desc(o, pf, agents):
    o = dict(o)
    if o["type"] == "MultiAgentObservation":
        o = dict(o["observation_config"])
    d = {"type": o["type"], "agents": agents}
    t = o["type"]
    if t == "Kinematics":
        d["count"] = o.get("vehicles_count", 5)
        d["features"] = o.get("features") or ["presence", "x", "y", "vx", "vy"]
    elif t == "TimeToCollision":
        d["horizon"], d["pf"] = o.get("horizon", 10), pf
    elif t == "OccupancyGrid":
        d["features"] = o.get("features") or ["presence", "vx", "vy"]
        size = o.get("grid_size") or [[-27.5, 27.5], [-27.5, 27.5]]
        step = o.get("grid_step") or [5, 5]
        d["size"] = [[fx(x, 1000) for x in ax] for ax in size]
        d["step"] = [fx(x, 1000) for x in step]
    elif t == "KinematicsGoal":
        d["features"] = o["features"]
    elif t == "GrayscaleObservation":
        d["w"], d["h"], d["stack"] = o["observation_shape"][0], o["observation_shape"][1], o["stack_size"]
    return d


FEATS = ["presence", "x", "y", "vx", "vy", "cos_h", "sin_h", "cos_d", "sin_d"]


def gen_obs(rng, kind):
    t = ["Kinematics", "Kinematics", "TimeToCollision", "OccupancyGrid", "OccupancyGrid"][rng.randint(5)]
    if t == "Kinematics":
        k = rng.randint(1, len(FEATS) + 1)
        o = {"type": t, "features": [FEATS[i] for i in rng.permutation(len(FEATS))[:k]],
             "vehicles_count": int(rng.choice([1, 2, 3, 5, 8, 15])), "absolute": bool(rng.randint(2)),
             "order": ["sorted", "shuffled"][rng.randint(2)], "see_behind": bool(rng.randint(2)),
             "observe_intentions": bool(rng.randint(2))}
        if rng.randint(2) or o["absolute"]:
            o["features_range"] = {"x": [-100, 100], "y": [-50, 100], "vx": [-20, 20], "vy": [-20, 20]}
        return o
    if t == "TimeToCollision":
        return {"type": t, "horizon": int(rng.choice([4, 5, 10]))}
    o = {"type": t}
    if rng.randint(2):
        o["features"] = [FEATS[i] for i in rng.permutation(7)[:rng.randint(1, 7)]]
    if rng.randint(2):
        o["grid_size"] = [[-20, 40], [-12, 12]] if rng.randint(2) else [[-10, 25], [-16, 9]]
    if rng.randint(2):
        o["grid_step"] = [[5, 4], [2, 3], [10, 2.5]][rng.randint(3)]
    if rng.randint(2):
        o["features_range"] = {"x": [-50, 60], "y": [-20, 20], "vx": [-30, 30], "vy": [-10, 10]}
    return o


def gen_action(rng, kind):
    a = {"type": "DiscreteMetaAction"}
    k = rng.randint(3)
    if k == 1 and kind not in ("merge",):
        a["lateral"] = False
    if k == 2 and kind not in ("merge",):
        a["longitudinal"] = False
    return a


def act_desc(a, agents):
    if a["type"] == "MultiAgentAction":
        a = a["action_config"]
    return {"type": a["type"], "lon": a.get("longitudinal", True), "lat": a.get("lateral", True), "agents": agents}


def cases(ctx, rng):
    out = []
    for kind in W.KINDS:
        out.append((kind, {}))
    for kind in ["highway", "merge", "roundabout", "two-way", "intersection"]:
        for _ in range(5 if ctx.quick else 40):
            pf = int(rng.choice([1, 2, 5]))
            out.append((kind, {"observation": gen_obs(rng, kind), "action": gen_action(rng, kind), "policy_frequency": pf}))
    for _ in range(4 if ctx.quick else 20):
        out.append(("highway", {"observation": {k: v for k, v in gen_obs(rng, "highway").items()} , "action": {
            "type": "ContinuousAction", "longitudinal": True, "lateral": bool(rng.randint(2))}, "policy_frequency": 5}))
    for n in [1, 2, 3, 4]:
        o = gen_obs(rng, "intersection")
        out.append(("multi-intersection", {"controlled_vehicles": n, "observation": {
            "type": "MultiAgentObservation", "observation_config": o}}))
    out.append(("highway", {"controlled_vehicles": 3, "observation": {"type": "MultiAgentObservation", "observation_config": {
        "type": "OccupancyGrid"}}, "action": {"type": "MultiAgentAction", "action_config": {"type": "DiscreteMetaAction"}}}))
    out.append(("parking", {"controlled_vehicles": 2, "observation": {"type": "MultiAgentObservation",
                "observation_config": GOAL}, "action": {"type": "MultiAgentAction", "action_config": {
                    "type": "ContinuousAction"}}}))
    for kind in ["highway", "intersection"]:
        for w, h, st in [(84, 84, 4), (60, 90, 2)]:
            out.append((kind, {"offscreen_rendering": True, "screen_width": w, "screen_height": h, "scaling": 1.75,
                               "observation": {"type": "GrayscaleObservation", "weights": [0.2989, 0.5870, 0.1140],
                                               "stack_size": st, "observation_shape": (w, h)}}))
    # continuous control only goes along with observations that need no discrete speed
    return [(k, c) for k, c in out if not (c.get("action", {}).get("type") == "ContinuousAction"
                                           and c.get("observation", {}).get("type") == "TimeToCollision")]


def run(ctx):
    os.environ.pop("SDL_VIDEODRIVER", None)       # images are drawn offscreen: no display is needed
    rng = np.random.RandomState(ctx.seed + 40)
    lines, n = [], 0
    for kind, cfg in cases(ctx, rng):
        tag = "%s %s" % (kind, cfg)
        cfg = dict(cfg)
        if kind == "highway":
            cfg["vehicles_count"] = 8
        for rep in range(2):
            env, err = call(W.cls(kind), dict(cfg)) if rep == 0 else (env, None)
            if err is None:
                env.seed(int(rng.randint(10 ** 6)))
            obs, err = call(env.reset) if err is None else (None, err)
            if err is not None:
                lines.append({"k": "obs", "tag": tag, "type": "", "ok": False, "err": err})
                break
            c = env.config
            multi = "controlled_vehicles" in c and c["observation"]["type"] == "MultiAgentObservation"
            agents = c["controlled_vehicles"] if multi else 0
            o = obs_desc(c["observation"], c["policy_frequency"], agents)
            lines.append({"k": "space", "tag": tag, "o": o, "a": act_desc(c["action"], agents),
                          "obs": space_leaves(env.observation_space), "act": space_leaves(env.action_space)})
            n += 1

            def event(obs, err):
                e = {"k": "obs", "tag": tag, "type": o["type"], "ok": err is None, "err": err or ""}
                if err is None:
                    e["v"] = value_leaves(obs)
                    ct, err = call(env.observation_space.contains, obs)
                    e["contains"] = bool(ct)
                lines.append(e)
            event(obs, None)
            for t in range(7 if ctx.quick else 20):
                out, err = call(env.step, W.sample_action(env, rng))
                event(out[0] if out else None, err)
                if err or out[2]:
                    break
    ctx.count("observations", sum(e["k"] == "obs" for e in lines))
    ctx.sample(lines[0])
    ctx.judge("SpacesTrace", lines, ntraces=n, describe=lambda l: {"tag": l["tag"], "err": l.get("err")})
    ctx.require("contains", "finite", "action_space", *["member_" + t for t in (
        "Kinematics", "TimeToCollision", "OccupancyGrid", "KinematicsGoal", "AttributesObservation", "GrayscaleObservation")])
