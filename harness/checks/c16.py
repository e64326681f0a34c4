"""C16: longitudinal decisions and steering of simulated drivers (IDM and linear models)."""
import numpy as np

from .. import drivers as D
from ..core import fx, call


def run(ctx):
    ctx.model_check("MCDrivers")
    if ctx.quick:
        ctx.model_check("MCFollow")
    else:
        ctx.model_check("MCFollow", cfg="MCFollowLong.cfg", workers=8)
    rng = np.random.RandomState(ctx.seed + 1600)
    lines = []
    big = 1 if ctx.quick else 8
    for n in range(1200 * big):
        road, v = D.scene(rng)
        geo = D.Geometry(road.network)
        tag = "scene %d %s" % (n, type(v).__name__)
        es = road.vehicles + [o for o in road.objects if D.kind(o) == "obstacle"]
        p = D.params(v)
        for _ in range(2):
            x = v if rng.rand() < .5 else es[rng.randint(len(es))]
            y = None if rng.rand() < .25 else es[rng.randint(len(es))]
            y = None if y is x else y
            dist = 0
            if y is not None and D.kind(x) in ("controlled", "plain"):
                r = geo.ref(x.lane_index)
                dist = fx(r.local(y.position)[0] - r.local(x.position)[0], 1e4)
            got, err = call(v.acceleration, x, y) if rng.rand() < .5 else call(v.acceleration, ego_vehicle=x, front_vehicle=y, rear_vehicle=None)
            lines.append({"k": "acc", "ok": err is None, "err": err or "", "p": p, "x": D.entity(x), "y": {"kind": "none"} if y is None else D.entity(y),
                          "d": dist, "got": fx(got, 1e4) if err is None else 0, "tag": tag})
            if y is not None and D.kind(x) in ("controlled", "plain"):
                g, err = call(v.desired_gap, x, y)
                lines.append({"k": "gap", "ok": err is None, "err": err or "", "p": p, "x": D.entity(x), "y": D.entity(y),
                              "got": fx(g, 1e4) if err is None else 0, "tag": tag})
        # nobody to drive
        got, err = call(v.acceleration, None, v)
        lines.append({"k": "acc", "ok": err is None, "err": err or "", "p": p, "x": {"kind": "nobody"}, "y": D.entity(v), "d": 0,
                      "got": fx(got, 1e4) if err is None else 0, "tag": tag})
        if hasattr(v, "collect_data") and abs(v.speed) >= 1 and n % 3 == 0:
            lines.append(D.collected(v, geo, tag))
        y = es[rng.randint(len(es))]
        lines.append(D.maximum(v, None if rng.rand() < .2 or y is v else y, geo, tag))
        if rng.rand() < .6:
            speed, had = v.speed, list(road.vehicles)
            v.speed = float(rng.choice([0, 2, 4.9, -1]))
            if rng.rand() < .5:        # nobody near behind
                road.vehicles = [x for x in had if x is v or rng.rand() < .4]
            kept = [(x, x.position.copy()) for x in had]
            if rng.rand() < .6:        # those behind are far away
                u = np.array([np.cos(v.lane.heading_at(0)), np.sin(v.lane.heading_at(0))])
                for x in had:
                    s = v.lane.local_coordinates(x.position)[0] - v.lane.local_coordinates(v.position)[0]
                    if x is not v and s < 0:
                        x.position = x.position - u * rng.uniform(170, 260)
            e = D.recover(v, geo, tag)
            v.speed, road.vehicles = speed, had
            for x, q in kept:
                x.position = q
            lines += [e] if e else []
        lines.append(D.decide(v, geo, "drive", tag))
        if n % 200 == 0:
            lines += D.documented(rng)
        # random behaviours: parameters of their own, within the documented ranges
        if n % 20 == 0:
            cl = D.drivers()[1 + (n // 20) % 3]
            a, b = (cl(road, v.position, v.heading, 20.) for _ in range(2))
            pub = (list(cl.ACCELERATION_PARAMETERS), list(cl.STEERING_PARAMETERS))
            _, err = call(a.randomize_behavior)
            lo, hi = np.array(D.drivers()[1].ACCELERATION_RANGE)
            slo, shi = np.array(D.drivers()[1].STEERING_RANGE)
            inside = err is None and bool(np.all(a.ACCELERATION_PARAMETERS >= lo) and np.all(a.ACCELERATION_PARAMETERS <= hi)
                                          and np.all(a.STEERING_PARAMETERS >= slo) and np.all(a.STEERING_PARAMETERS <= shi))
            own = pub == (list(cl.ACCELERATION_PARAMETERS), list(cl.STEERING_PARAMETERS)) == (list(b.ACCELERATION_PARAMETERS), list(b.STEERING_PARAMETERS))
            lines.append({"k": "random", "ok": err is None, "err": err or "", "inside": inside, "own": bool(own), "tag": tag})
    ctx.count("scenes", 1200 * big)
    for _ in range(60 * big):
        lines.append(D.platoon(rng))
    ep = D.episodes(rng, ctx.seed, big, "drive", frames=60)
    ctx.count("decisions_in_environments", len(ep))
    lines += ep
    ctx.sample(lines[0])
    ctx.judge("DriversTrace", lines, ntraces=1260 * big + len(D.EPISODES) * big, timeout=800)
    ctx.require("acceleration_idm", "acceleration_idm_free", "acceleration_idm_plain", "acceleration_linear", "acceleration_linear_free",
                "acceleration_linear_plain", "acceleration_idm_obstacle", "acceleration_linear_obstacle", "desired_gap", "drives_idm", "drives_linear", "limits", "steering_idm", "steering_linear", "crashed_decides_nothing",
                "platoon_safe", "maximum_speed", "maximum_speed_alone", "recovers", "does_not_reverse", "documented_parameters", "data_products", "data_acceleration", "data_steering", "randomized", "own_parameters")
