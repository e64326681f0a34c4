"""C31: the roads and settings of the tasks are the documented ones."""
import copy

import numpy as np

from .. import worlds as W
from ..core import fx, call


def lanes(env):
    out, g = [], env.road.network.graph
    for a in g:
        for b in g[a]:
            for i, lane in enumerate(g[a][b]):
                n = lane.length
                ps = [lane.position(n * k / 4, 0) for k in range(5)]
                out.append({"f": str(a), "t": str(b), "i": i, "p": [[fx(p[0], 1000), fx(p[1], 1000)] for p in ps], "len": fx(n, 1000),
                            "w": fx(lane.width_at(n / 2), 1000), "v": fx(lane.speed_limit, 1), "pr": int(lane.priority), "forb": bool(lane.forbidden)})
    return out


def text(x):
    if isinstance(x, (list, tuple, np.ndarray)):
        return " ".join(text(y) for y in x)
    if isinstance(x, (bool, str)) or x is None:
        return str(x)
    return "%g" % round(float(x), 4)


def flat(c, prefix=""):
    out = []
    for k, v in c.items():
        if isinstance(v, dict):
            out += flat(v, prefix + k + ".")
        else:
            out.append([prefix + k, text(v)])
    return out


def network(env, kind, tag):
    return {"k": "network", "kind": W.task(kind), "tag": tag, "lanes": int(env.config.get("lanes_count", 0)), "net": lanes(env)}


CHANGES = {"highway": [{"lanes_count": 2}, {"duration": 12, "vehicles_count": 3}, {"initial_lane_id": 1}, {"collision_reward": -3}],
           "roundabout": [{"incoming_vehicle_destination": 1}, {"duration": 5}], "intersection": [{"spawn_probability": 0.1}, {"destination": "o2"}],
           "multi-intersection": [{"controlled_vehicles": 3}], "parking": [{"duration": 7}, {"controlled_vehicles": 1, "policy_frequency": 3}],
           "summon": [{"vehicles_count": 4}], "lane-keeping": [{"state_noise": 0}], "merge": [{"simulation_frequency": 10}],
           "two-way": [{"policy_frequency": 3, "simulation_frequency": 30}]}


GROUPS = {"highway": [("observation", {"type": "Kinematics", "vehicles_count": 3}), ("action", {"type": "DiscreteMetaAction", "lateral": False})],
          "roundabout": [("observation", {"type": "Kinematics", "normalize": False}), ("action", {"type": "ContinuousAction"})],
          "intersection": [("observation", {"type": "OccupancyGrid"}), ("observation", {"type": "Kinematics", "vehicles_count": 2}),
                           ("action", {"type": "DiscreteMetaAction"})],
          "multi-intersection": [("observation", {"type": "MultiAgentObservation", "observation_config": {"type": "OccupancyGrid"}}),
                                 ("action", {"type": "MultiAgentAction", "action_config": {"type": "DiscreteMetaAction"}})],
          "parking": [("observation", {"type": "KinematicsGoal", "features": ["x", "y", "vx", "vy", "cos_h", "sin_h"], "scales": [1, 1, 1, 1, 1, 1]})],
          "summon": [("observation", {"type": "KinematicsGoal", "features": ["x", "y", "vx", "vy", "cos_h", "sin_h"], "scales": [2, 2, 1, 1, 1, 1]})],
          "lane-keeping": [("observation", {"type": "AttributesObservation", "attributes": ["state"]}),
                           ("action", {"type": "ContinuousAction", "longitudinal": False, "lateral": True, "dynamical": True})],
          "merge": [("observation", {"type": "Kinematics"}), ("action", {"type": "DiscreteMetaAction", "longitudinal": False})],
          "two-way": [("observation", {"type": "TimeToCollision"}), ("observation", {"type": "Kinematics"})]}


def group(env, err, kind, top, given, tag):
    rest = {k: v for k, v in env.config.items() if k != top} if env is not None else {}
    return {"k": "group", "kind": kind, "tag": tag, "ok": err is None, "err": err or "", "given": flat(given), "others": flat(rest),
            "got": flat(env.config[top]) if env is not None else []}


def run(ctx):
    ctx.model_check("MCNetworks", workers=1)
    rng = np.random.RandomState(ctx.seed + 3100)
    lines = []

    def settings(kind, env, changed, tag, id=""):
        lines.append({"k": "settings", "kind": kind, "id": id, "tag": tag, "changed": flat(changed), "got": flat(env.config), "ok": True})

    for _ in range(1 if ctx.quick else 6):
        kinds = list(W.KINDS)
        rng.shuffle(kinds)
        for kind in kinds:
            env = W.cls(kind)()
            settings(kind, env, {}, kind)
            env.reset()
            for n in range(3):
                lines.append(network(env, kind, "%s episode %d" % (kind, n)))
                for _ in range(3):
                    env.step(W.sample_action(env, rng))
                env.reset()
            settings(kind, env, {}, kind + " after episodes")
            for change in CHANGES[kind]:
                settings(kind, W.cls(kind)(dict(change)) if kind not in ("nothing",) else env, change, "%s(%s)" % (kind, change))
                other = W.cls(kind)()
                other.configure(dict(change))
                other.reset()
                settings(kind, other, change, "%s.configure(%s)" % (kind, change))
                lines.append(network(other, kind, "%s %s" % (kind, change)))
                settings(kind, W.cls(kind)(), {}, "another " + kind)
            for top, given in GROUPS[kind]:
                made, err = call(lambda: W.cls(kind)({top: copy.deepcopy(given)}))
                lines.append(group(made, err, kind, top, given, "%s({%r: %s})" % (kind, top, given)))
                other = W.cls(kind)()
                _, err = call(lambda: (other.configure({top: copy.deepcopy(given)}), other.reset()))
                lines.append(group(other, err, kind, top, given, "%s.configure({%r: %s})" % (kind, top, given)))
                settings(kind, W.cls(kind)(), {}, "another " + kind)
        for n in range(1, 7):
            env = W.cls("highway")({"lanes_count": n, "vehicles_count": 1})
            lines.append(network(env, "highway", "%d lanes" % n))
        for id in W.IDS:
            env = W.gym_make(id)
            settings("", env.unwrapped, {}, id, id)
            lines.append(network(env.unwrapped, [k for k in W.KINDS if isinstance(env.unwrapped, W.cls(k))][-1], id)
                         if id != "intersection-multi-agent-v1" else network(env.unwrapped, "multi-intersection", id))
    ctx.count("networks", sum(l["k"] == "network" for l in lines))
    ctx.count("configurations", sum(l["k"] == "settings" for l in lines))
    ctx.sample({k: v for k, v in lines[0].items() if k != "net"})
    ctx.judge("TasksTrace", lines, ntraces=len(lines), timeout=850)
    ctx.require("defaults", "changed_only_what_was_asked", "length", "width", "speed_limit", "priority", "closed", *["places_" + k for k in
                ("highway", "merge", "two-way", "parking", "summon", "lane-keeping", "intersection", "roundabout")])
