"""C15: geometry of lanes: coordinates, headings, membership, distances, closest lanes, continuity of the standard roads."""
import math

import numpy as np

from .. import worlds as W
from ..core import fx, fxs, call, MachineryError
from ..geometry import Ref, ref_of


def jlane(l):
    n = type(l).__name__
    r = {"length": fx(l.length, 1000), "width": fx(l.width, 1000), "forbidden": bool(l.forbidden)}
    if n == "CircularLane":
        r.update(type="circle", x=fx(l.center[0], 1000), y=fx(l.center[1], 1000), radius=fx(l.radius, 1000),
                 sign=1 if l.direction > 0 else -1, phase=fx(math.remainder(l.start_phase, 2 * math.pi), 1e6))
        return r
    a, b = np.array(l.start, float), np.array(l.end, float)
    d = (b - a) / math.hypot(*(b - a))
    r.update(type="straight", x=fx(a[0], 1000), y=fx(a[1], 1000), dx=fx(d[0], 1e6), dy=fx(d[1], 1e6))
    if n == "SineLane":
        r.update(type="sine", amp=fx(l.amplitude, 1000), puls=fx(l.pulsation, 1e9),
                 phase=fx(math.remainder(l.phase, 2 * math.pi), 1e6))
    return r


def random_lane(rng, kind=None, at=None):
    """(real lane, reference built from the same parameters)."""
    from highway_env.road.lane import StraightLane, SineLane, CircularLane
    kind = kind or ("straight", "sine", "circle")[rng.randint(3)]
    c = dict(width=float(rng.choice([3, 3.5, 4, 6])), forbidden=bool(rng.rand() < .3))
    if rng.rand() < .4:
        c["speed_limit"] = float(rng.choice([8, 20, 33]))
    if kind == "circle":
        ph = rng.uniform(-4, 4)
        sg = rng.rand() < .5
        radius = round(float(rng.uniform(8, 80)), 3)
        sp = rng.uniform(.2, 6) if rng.rand() < .75 else rng.uniform(2, 6) / radius
        k = dict(center=(rng.uniform(-100, 100, 2) if at is None else at), radius=radius, start_phase=ph,
                 end_phase=ph + sp if sg else ph - sp, clockwise=bool(sg), **c)
        return CircularLane(**k), Ref(kind, **k)
    a = rng.uniform(-150, 150, 2) if at is None else np.array(at, float)
    th = rng.choice([0, math.pi / 2, math.pi, -math.pi / 2, 1000]) if rng.rand() < .5 else 1000
    th = rng.uniform(-math.pi, math.pi) if th == 1000 else th
    b = a + (rng.uniform(6, 300) if rng.rand() < .8 else rng.uniform(2, 6)) * np.array([math.cos(th), math.sin(th)])
    k = dict(start=a, end=b, **c)
    if kind == "sine":
        k.update(amplitude=float(rng.uniform(-6, 6)), pulsation=float(rng.uniform(.01, .15)), phase=float(rng.uniform(-4, 4)))
        return SineLane(**k), Ref(kind, **k)
    return StraightLane(**k), Ref(kind, **k)


def head(a):
    return fxs([math.cos(a), math.sin(a)], 1e6)


def places(rng, l, ref, n):
    out = []
    for _ in range(n):
        s = rng.choice([rng.uniform(-12, ref.n + 12), 0, ref.n, ref.n - 2.5 + rng.choice([-.1, .1]), ref.n + 5 + rng.choice([-.1, .1]),
                        -5 + rng.choice([-.1, .1]), rng.choice([-.1, .1])])
        w = ref.k["width"]
        r = rng.choice([0, rng.uniform(-3 * w, 3 * w), w / 2 + rng.choice([-.1, .1]), -w / 2 + rng.choice([-.1, .1]),
                        2 * w * rng.choice([-1, 1]) + rng.choice([-.1, .1]), (w / 2 + 1) * rng.choice([-1, 1]) + rng.choice([-.1, .1])])
        if ref.kind == "circle" and ref.k["radius"] - ref.sign * r < 1:
            r = 0.
        out.append((float(s), float(r)))
    return out


def lane_events(rng, l, ref, n, tag, lines):
    jl = ref.json()
    for s, r in places(rng, l, ref, n):
        p, err = call(l.position, s, r)
        h, err2 = call(l.heading_at, s)
        wd, err3 = call(l.width_at, s)
        ok = not (err or err2 or err3)
        lines.append({"k": "pos", "ok": ok, "err": err or err2 or err3 or "", "lane": jl, "s": fx(s, 1000), "r": fx(r, 1000),
                      "p": fxs(p, 1000) if ok else [], "h": head(h) if ok else [], "width": fx(wd, 1000) if ok else 0, "tag": tag})
        p = ref.position(s, r)
        if ref.kind == "circle" and abs(abs(ref.local(p)[0]) - math.pi * ref.k["radius"]) < .01:
            continue       # opposite the start: both ends of the coordinate are right
        c, err = call(l.local_coordinates, p)
        lines.append({"k": "local", "ok": err is None, "err": err or "", "lane": jl, "p": fxs(p, 1000),
                      "s": fx(c[0], 1000) if c else 0, "r": fx(c[1], 1000) if c else 0, "tag": tag})
        s0, r0 = ref.local(p)
        hd = float(rng.uniform(-7, 7))
        m = float(rng.choice([0, 1, 0, 2.5, -.5]))
        wt = float(rng.choice([1, 0, .5, 3]))
        e = {"k": "tests", "lane": jl, "p": fxs(p, 1000), "h": head(hd), "margin": fx(m, 1000), "w": ref.witness(p, hd),
             "weight": fx(wt, 1000), "tag": tag}
        errs = []
        for key, f in (("on", lambda: bool(l.on_lane(p, margin=m))), ("on2", lambda: bool(l.on_lane(p, s0, r0, m))),
                       ("reach", lambda: bool(l.is_reachable_from(p))), ("after", lambda: bool(l.after_end(p))),
                       ("after2", lambda: bool(l.after_end(p, s0, r0))), ("dist", lambda: fx(l.distance(p), 1000)),
                       ("dist2", lambda: fx(l.distance_with_heading(p, None), 1000)),
                       ("dwh", lambda: fx(l.distance_with_heading(p, hd, wt) if wt != 1 else l.distance_with_heading(p, hd), 1000))):
            v, err = call(f)
            e[key] = v
            errs += [err] if err else []
        e["ok"], e["err"] = not errs, "; ".join(errs)
        lines.append(e)


def network(rng, n):
    from highway_env.road.road import RoadNetwork
    net, refs = RoadNetwork(), {}
    for i in range(n):
        a, b = "n%d" % rng.randint(3), "n%d" % (3 + rng.randint(3))
        if rng.rand() < .5:
            a, b = b, a
        l, ref = random_lane(rng, at=rng.uniform(-40, 40, 2))
        net.add_lane(a, b, l)
        refs[(a, b, len(net.graph[a][b]) - 1)] = ref
    return net, refs


def closest_events(rng, net, refs, n, tag, lines, spread=60, near=None):
    idx = list(refs)
    for _ in range(n):
        if rng.rand() < .6:
            ref = refs[idx[rng.randint(len(idx))]]
            s = rng.uniform(-5, ref.n + 5)
            p = ref.position(s, float(rng.uniform(-5, 5)))
            t = ref.tangent(s)
            hd = math.atan2(t[1], t[0]) + rng.choice([0, rng.uniform(-.5, .5), math.pi]) + rng.choice([0, 2 * math.pi, -2 * math.pi])
        else:
            p, hd = rng.uniform(-spread, spread, 2), float(rng.uniform(-7, 7))
        # no place too close to the centre of an arc or opposite to its start, where coordinates jump
        if any(r.kind == "circle" and (abs(abs(r.local(p)[0]) - math.pi * r.k["radius"]) < .01
                                       or np.hypot(*(p - r.k["center"])) < .5) for r in refs.values()):
            continue
        use = bool(rng.rand() < .6)
        got, err = call(net.get_closest_lane_index, p, hd) if use else call(net.get_closest_lane_index, p)
        lines.append({"k": "closest", "ok": err is None, "err": err or "", "p": fxs(p, 1000), "h": head(hd), "heading": use,
                      "lanes": [{"lane": refs[i].json(), "w": refs[i].witness(p, hd)} for i in idx],
                      "got": idx.index(tuple(got)) + 1 if got is not None and tuple(got) in refs else 0, "tag": tag})


def route_events(rng, net, refs, n, tag, lines):
    idx = list(refs)
    for _ in range(n):
        r = [idx[rng.randint(len(idx))]]
        while len(r) < 4:
            nx = [i for i in idx if i[0] == r[-1][1]] or idx
            r.append(nx[rng.randint(len(nx))])
        r = r[:1 + rng.randint(4)]
        tot = sum(refs[i].n for i in r)
        s, lat = float(rng.uniform(-5, tot + 20)), float(rng.choice([0, -3, 2.5]))
        x = s
        for i in r[:-1]:
            x -= refs[i].n
            if abs(x) < .01:
                break
        else:
            route = list(r)
            got, err = call(net.position_heading_along_route, route, s, lat)
            if err is None and route != r:
                err = "the route was modified"
            lines.append({"k": "route", "ok": err is None, "err": err or "", "lanes": [refs[i].json() for i in r], "s": fx(s, 1000),
                          "r": fx(lat, 1000), "p": fxs(got[0], 1000) if err is None else [],
                          "h": head(got[1]) if err is None else [], "tag": tag})


def made_events(rng, net, refs, n, tag, lines):
    from highway_env.road.road import Road
    from highway_env.road.objects import Obstacle, Landmark
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.behavior import IDMVehicle
    from highway_env.vehicle.controller import MDPVehicle
    road = Road(net, np_random=np.random.RandomState(rng.randint(10 ** 6)))
    idx = list(refs)
    for _ in range(n):
        i = idx[rng.randint(len(idx))]
        c = (Vehicle, IDMVehicle, MDPVehicle, Obstacle, Landmark)[rng.randint(5)]
        s = float(rng.uniform(0, refs[i].n))
        sp = None if rng.rand() < .4 else float(rng.choice([7., 13.5, 25]))
        lim = refs[i].k.get("speed_limit", 20.)
        if rng.rand() < .4:                     # a limit that changes
            lim = refs[i].k["speed_limit"] = net.get_lane(i).speed_limit = float(rng.choice([8, 20, 33]))
        obj = c in (Obstacle, Landmark)
        v, err = call(c.make_on_lane, road, i, s, **({} if obj else {"speed": sp}))
        exp = 0. if obj else lim if sp is None else sp
        lines.append({"k": "made", "ok": err is None, "err": err or "", "lane": refs[i].json(), "s": fx(s, 1000),
                      "p": fxs(v.position, 1000) if v else [], "h": head(v.heading) if v else [], "speed": fx(v.speed, 1000) if v else 0,
                      "expected": fx(exp, 1000), "tag": tag + " " + c.__name__})
    # distances between vehicles, along the lane of the first one or a given one
    vs = []
    for i in idx:
        v, err = call(Vehicle.make_on_lane, road, i, float(rng.uniform(0, refs[i].n)), 10.)
        if v is not None:
            vs.append(v)
    for _ in range(n):
        a, b = vs[rng.randint(len(vs))], vs[rng.randint(len(vs))]
        given = bool(rng.rand() < .5)
        i = idx[rng.randint(len(idx))] if given else a.lane_index
        if i not in refs or any(refs[i].kind == "circle" and (abs(abs(refs[i].local(x)[0]) - math.pi * refs[i].k["radius"]) < .02
                                                              or np.hypot(*(x - refs[i].k["center"])) < .5)
                                for x in (a.position, b.position)):
            continue
        d, err = call(a.lane_distance_to, b, net.get_lane(i)) if given else call(a.lane_distance_to, b)
        lines.append({"k": "lanedist", "ok": err is None, "err": err or "", "lane": refs[i].json(), "p": fxs(a.position, 1000),
                      "p2": fxs(b.position, 1000), "w": refs[i].witness(a.position), "w2": refs[i].witness(b.position),
                      "d": fx(d, 1000) if err is None else 0, "tag": tag})


def joins(lines, ctx):
    from highway_env.vehicle.kinematics import Vehicle  # noqa: F401
    for kind, cfg in (("merge", {}), ("roundabout", {}), ("intersection", {}), ("highway", {"vehicles_count": 1})):
        net = W.make(kind, cfg, seed=ctx.seed).road.network
        n = 0
        for a in net.graph:
            for b in net.graph[a]:
                for c in net.graph.get(b, {}):
                    if c == a or len(net.graph[a][b]) != len(net.graph[b][c]):
                        continue
                    if kind == "intersection" and (a[0] == "o") == (c[0] == "o"):
                        continue   # exits "o" are also entries of the same road, in the opposite direction
                    for i in range(len(net.graph[a][b])):
                        n += 1
                        yield kind, (a, b, c, i), net.graph[a][b][i], net.graph[b][c][i]
        if kind in ("merge", "roundabout", "intersection") and n < 1:
            raise MachineryError("no joined lanes in %s" % kind)


def run(ctx):
    from highway_env.road.road import RoadNetwork
    ctx.model_check("MCLanes")
    rng = np.random.RandomState(ctx.seed + 1500)
    lines = []
    big = 1 if ctx.quick else 10
    for n in range(150 * big):
        l, ref = random_lane(rng)
        lane_events(rng, l, ref, 7, "lane %d" % n, lines)
    for n in range(25 * big):
        net, refs = network(rng, 2 + rng.randint(6))
        closest_events(rng, net, refs, 12, "net %d" % n, lines)
        route_events(rng, net, refs, 6, "net %d" % n, lines)
        made_events(rng, net, refs, 8, "net %d" % n, lines)
    # the roads of the environments
    for kind, cfg in (("merge", {}), ("roundabout", {}), ("intersection", {}), ("two-way", {}), ("parking", {}), ("racetrack", {})):
        if kind not in W.KINDS:
            continue
        net = W.make(kind, cfg, seed=ctx.seed).road.network
        refs = {(a, b, i): ref_of(l) for a in net.graph for b in net.graph[a] for i, l in enumerate(net.graph[a][b])}
        idx = list(refs)
        for j in range(20 * big):
            i = idx[rng.randint(len(idx))]
            lane_events(rng, net.get_lane(i), refs[i], 3, "%s %s" % (kind, i), lines)
        closest_events(rng, net, refs, 12 * big, kind, lines, spread=100)
        route_events(rng, net, refs, 12 * big, kind, lines)
    for kind, i, a, b in joins(lines, ctx):
        lines.append({"k": "join", "ok": True, "a": ref_of(a).json(), "b": ref_of(b).json(), "tag": "%s %s" % (kind, i)})
    for n, length, angle in ((1, 100., 0.), (4, 10000., 0.), (3, 250., .7), (2, 40., -2.5), (5, 600., math.pi / 2), (4, None, 0.)):
        net, err = call(RoadNetwork.straight_road_network, n, angle=angle, **({} if length is None else {"length": length}))
        lanes = net.graph["0"]["1"] if err is None else []
        lines.append({"k": "network", "ok": err is None, "err": err or "", "n": n, "length": fx(length or 10000., 1000),
                      "angle": fx(angle, 1e6), "lanes": [jlane(x) for x in lanes], "tag": "straight"})
    for kind in {l["k"] for l in lines}:
        ctx.count("events_" + kind, sum(l["k"] == kind for l in lines))
    ctx.sample(lines[0])
    ctx.judge("LanesTrace", lines, ntraces=150 * big + 31 * big, timeout=800)
    ctx.require("position_straight", "position_sine", "position_circle", "heading_sine", "heading_circle", "local_straight",
                "local_sine", "local_circle", "on_lane_TRUE", "on_lane_FALSE", "reachable_TRUE", "reachable_FALSE",
                "after_end_TRUE", "after_end_FALSE", "distance", "distance_with_heading", "closest", "closest_with_heading",
                "along_route", "continuous", "made_on_lane", "lane_distance", "straight_network")
