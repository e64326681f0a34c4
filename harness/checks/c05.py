"""C05: rows of kinematics observations."""
import numpy as np

from .. import worlds as W, scenes as S
from ..core import fx, call

FEATS = ["presence", "x", "y", "vx", "vy", "heading", "cos_h", "sin_h", "cos_d", "sin_d"]


def gen(rng):
    o = {"type": "Kinematics", "vehicles_count": int(rng.choice([1, 2, 3, 5, 7, 12]))}
    if rng.rand() < .75:
        o["features"] = [FEATS[i] for i in rng.permutation(len(FEATS))[:rng.randint(2, len(FEATS) + 1)]]
    for k in ("absolute", "see_behind", "observe_intentions"):
        if rng.rand() < .5:
            o[k] = bool(rng.randint(2))
    for k in ("normalize", "clip"):
        if rng.rand() < .25:
            o[k] = False
    if rng.rand() < .3:
        o["order"] = ["sorted", "shuffled"][rng.randint(2)]
    r = rng.rand()
    if r < .35:
        o["features_range"] = {"x": [-100, 100], "y": [-30, 50], "vx": [-20, 20], "vy": [-15, 25]}
    elif r < .45:
        o["features_range"] = {"vx": [0, 40], "x": [-200, 80]}
    return o


def desc(o):
    r = o.get("features_range")
    return {"features": o.get("features") or ["presence", "x", "y", "vx", "vy"], "count": o.get("vehicles_count", 5),
            "absolute": o.get("absolute", False), "intentions": o.get("observe_intentions", False),
            "behind": o.get("see_behind", False), "normalize": o.get("normalize", True), "clip": o.get("clip", True),
            "order": o.get("order", "sorted"), "ranged": bool(r),
            "range": {k: [fx(x, 1e4) for x in v] for k, v in (r or {"x": [0, 1]}).items()}}


def event(env, ego, obs, o, nlanes, tag):
    vs, me = [], 0
    for i, v in enumerate(env.road.vehicles):
        if v is ego:
            me = i + 1
        vs.append({"f": S.features(v), "d": fx(np.hypot(*(v.position - ego.position)), 1e4),
                   "ld": fx(ego.lane.local_coordinates(v.position)[0] - ego.lane.local_coordinates(ego.position)[0], 1e4)})
    return {"k": "kin", "tag": tag, "o": o, "vs": vs, "me": me, "rows": rows(obs), "nlanes": nlanes}


def described(env, rng, tag):
    """A vehicle or an object described on its own, or relative to a vehicle."""
    from highway_env.road.objects import Obstacle, Landmark
    road = env.road
    things = list(road.vehicles) + [c(road, rng.uniform(-50, 50, 2), heading=float(rng.uniform(-4, 4))) for c in (Obstacle, Landmark)]
    if rng.rand() < .5:
        i = road.network.get_closest_lane_index(road.vehicles[0].position)
        things.append(Obstacle.make_on_lane(road, i, float(rng.uniform(0, 50))))
    o = things[rng.randint(len(things))]
    origin = None if rng.rand() < .4 else road.vehicles[rng.randint(len(road.vehicles))]
    obj = isinstance(o, (Obstacle, Landmark))
    intent = bool(rng.randint(2))
    args = {} if rng.rand() < .3 and intent else {"observe_intentions": intent}
    got, err = call(o.to_dict, origin, **args)

    def plain(x):
        c, s = np.cos(x.heading), np.sin(x.heading)
        return {"x": fx(x.position[0], 1e4), "y": fx(x.position[1], 1e4), "vx": fx(x.speed * c, 1e4), "vy": fx(x.speed * s, 1e4),
                "cos_h": fx(c, 1e6), "sin_h": fx(s, 1e6)}
    e = {"k": "dict", "tag": tag, "ok": err is None, "err": err or "", "object": obj, "is": plain(o), "relative": origin is not None,
         "from": plain(origin if origin is not None else o), "intent": intent, "towards": [0, 0], "moves": [fx(x, 1e4) for x in o.velocity] + [fx(x, 1e6) for x in o.direction]}
    if not obj:
        e["towards"] = [S.features(o)["cos_d"], S.features(o)["sin_d"]]
    if err is None:
        e["got"] = dict({k: fx(got[k], 1e4) for k in ("x", "y", "vx", "vy")}, **{k: fx(got[k], 1e6) for k in ("cos_h", "sin_h", "cos_d", "sin_d")}, presence=fx(got["presence"], 1))
    return e


def rows(obs):
    return [{"o6": [fx(x, 1e6) for x in r], "o4": [fx(x, 1e4) for x in r]} for r in np.asarray(obs, dtype=float)]


def nl(env, v):
    i = v.lane_index
    return len(env.road.network.graph[i[0]][i[1]])


def run(ctx):
    ctx.model_check("MCKinematics", workers=8)
    rng = np.random.RandomState(ctx.seed + 500)
    lines = []
    kinds = ["highway", "merge", "roundabout", "two-way", "intersection", "multi-intersection"]
    cases = []
    for kind in kinds:
        cases.append((kind, None))
        for _ in range(14 if ctx.quick else 100):
            cases.append((kind, gen(rng)))
    for n, (kind, o) in enumerate(cases):
        cfg = {}
        if kind == "highway":
            cfg = {"vehicles_count": int(rng.choice([0, 2, 12])), "lanes_count": int(rng.randint(1, 6))}
        if o is not None:
            cfg["observation"] = o if kind != "multi-intersection" else {"type": "MultiAgentObservation", "observation_config": o}
        if kind == "multi-intersection":
            cfg["controlled_vehicles"] = int(rng.randint(1, 4))
        env = S.scene_env(kind, cfg, int(rng.randint(10 ** 6)))
        oc = env.config["observation"]
        multi = oc["type"] == "MultiAgentObservation"
        oc = oc["observation_config"] if multi else oc
        if oc["type"] != "Kinematics":
            continue
        d = desc(oc)
        tag = "%s %s" % (kind, cfg)
        egos = env.controlled_vehicles if multi else env.controlled_vehicles[:1]
        obs = env.reset()
        egos = env.controlled_vehicles if multi else env.controlled_vehicles[:1]
        # the default range of y is set by the road on which the ego-vehicle first observes
        nlanes = [nl(env, v) for v in egos]

        def rec(obs):
            for i, v in enumerate(egos):
                lines.append(event(env, v, obs[i] if multi else obs, d, nlanes[i], tag))
        rec(obs)
        for t in range(3 if ctx.quick else 8):
            if t % 2 == 1 or kind in ("highway", "two-way"):
                if rng.rand() < .4:
                    S.relocate(env, env.controlled_vehicles[0], rng)
                S.perturb(env, rng, spread=[15, 60, 220][t % 3])
            if t % 2 == 0:          # drivers change their mind about where they go
                nodes = sorted({x for a in env.road.network.graph for x in [a] + list(env.road.network.graph[a])})
                for v in env.road.vehicles:
                    if hasattr(v, "plan_route_to") and v not in env.controlled_vehicles and rng.rand() < .5:
                        v.plan_route_to(nodes[rng.randint(len(nodes))])
            for v in env.road.vehicles:         # lorries
                if v not in egos and rng.rand() < .2:
                    v.LENGTH = 12.
            for _ in range(3):
                lines.append(described(env, rng, tag))
            out, err = call(env.observation_type.observe)
            rec(out)
            if rng.rand() < .7:
                # the scene may still change after it was observed (intersections): look at it when it is observed
                orig, scene = env.observation_type.observe, []

                def observe():
                    scene.append([event(env, v, [], d, nlanes[i], tag) for i, v in enumerate(egos)])
                    return orig()
                env.observation_type.observe = observe
                obs, _, done, _ = env.step(W.sample_action(env, rng))
                env.observation_type.observe = orig
                for i, e in enumerate(scene[-1]):
                    e["rows"] = rows(obs[i] if multi else obs)
                    lines.append(e)
    # several observers on roads with different numbers of lanes
    for n in range(8 if ctx.quick else 60):
        kind = ["merge", "roundabout"][n % 2]
        o = {"type": "Kinematics", "vehicles_count": 4, "absolute": bool(n % 4 > 1), "see_behind": bool(n % 3)}
        env = S.scene_env(kind, {"observation": {"type": "MultiAgentObservation", "observation_config": o}}, int(rng.randint(10 ** 6)))
        for k in range(2):
            S.relocate(env, env.road.vehicles[k], rng)
        env.controlled_vehicles = [env.road.vehicles[i] for i in rng.permutation(min(4, len(env.road.vehicles)))[:3]]
        env.define_spaces()
        nlanes = [nl(env, v) for v in env.controlled_vehicles]
        for t in range(2):
            out, err = call(env.observation_type.observe)
            for i, v in enumerate(env.controlled_vehicles):
                lines.append(event(env, v, out[i] if err is None else [], desc(o), nlanes[i], "observers %d" % n))
            env.road.act()
            env.road.step(.2)
    ctx.count("observations", len(lines))
    ctx.sample(lines[1])
    ctx.judge("KinematicsTrace", lines, ntraces=len(cases), timeout=800)
    ctx.require("ego_row", "rows", "padding", "shuffled_rows", "described_vehicle", "described_object", "described_relative")
