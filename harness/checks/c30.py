"""C30: what is learnt from watching drivers: parameters, and possible routes."""
import copy

import numpy as np

from .. import worlds as W
from ..core import fx, fxs, call


def dataset(f, y):
    return {"features": [np.array(x, float) for x in f], "outputs": [float(v) / 10 for v in y]}


def same(a, b):
    return all(np.array_equal(np.array(a[k]), np.array(b[k])) for k in a)


def some_data(rng, d, n):
    """Integer features, outputs in tenths: of a parameter with bounded noise, or arbitrary."""
    f = rng.randint(-2, 3, (n, d))
    kind = rng.randint(4)
    if kind == 0:           # all along one direction
        f = np.outer(rng.randint(-2, 3, n), rng.randint(-2, 3, d))
    truth = rng.randint(-3, 4, d)
    if rng.randint(5):
        return f, 10 * (f @ truth) + (rng.randint(-3, 4, n) if rng.randint(2) else 0), [1000 * int(t) for t in truth]
    return f, rng.randint(-100, 101, n), []


def regression(rng, n, lines):
    from highway_env import utils
    d = [2, 3, 2, 1][n % 4]
    f, y, truth = some_data(rng, d, rng.randint(1, 7))
    if not np.any(f):
        return
    data = dataset(f, y)
    given = copy.deepcopy(data)
    wide = n % 3 > 0
    box = np.array([[-100.] * d, [100.] * d]) if wide else np.sort(rng.randint(-4, 5, (2, d)) + np.array([[0], [1]]), axis=0).astype(float)
    bound = np.amax(np.abs(box))

    def go():
        free, _, _ = utils.confidence_ellipsoid(copy.deepcopy(data), param_bound=bound)
        theta, vertices, gram, beta = utils.confidence_polytope(data, parameter_box=box)
        return dict(free=fxs(free, 1e3), theta=fxs(theta, 1e3), vertices=[fxs(v, 1e3) for v in vertices], gram=[fxs(g, 1e2) for g in gram], beta=fx(beta, 1e3))
    r, err = call(go)
    if err is None and max(map(abs, r["free"])) > 90000:
        return
    lines.append(dict({"k": "regression", "ok": err is None, "err": err or "", "tag": "data %d" % n, "f": f.tolist(), "y": [int(v) for v in y],
                       "bound": int(round(bound)), "box": [[int(1000 * v) for v in b] for b in box], "truth": truth, "kept": same(given, data)}, **(r or {})))


def consistency(rng, n, lines):
    from highway_env import utils
    d = 2
    f, y, _ = some_data(rng, d, rng.randint(2, 8))
    y = np.array(y).copy()
    box = np.array([[-100.] * d, [100.] * d])
    if n % 2:
        y[-1] += int(rng.choice([-1, 1]) * 2 ** rng.randint(3, 11))
    data = dataset(f, y)
    given = copy.deepcopy(data)

    def go():
        ok = utils.is_consistent_dataset(data, parameter_box=box)
        train = {k: v[:-1] for k, v in given.items()}
        theta, _, _, beta = utils.confidence_polytope(copy.deepcopy(train), parameter_box=box)
        return dict(consistent=bool(ok), theta=fxs(theta, 1e3), beta=fx(beta, 1e3))
    r, err = call(go)
    if err is None and max(map(abs, r["theta"])) > 90000:
        return
    lines.append(dict({"k": "consistency", "ok": err is None, "err": err or "", "tag": "data %d" % n, "f": f[:-1].tolist(), "y": [int(v) for v in y[:-1]],
                       "last": {"f": f[-1].tolist(), "y": int(y[-1])}, "kept": same(given, data)}, **(r or {})))
    r, err = call(utils.is_consistent_dataset, dataset(f[:1], y[:1]), parameter_box=box)
    lines.append({"k": "alone", "ok": err is None, "err": err or "", "tag": "sample %d" % n, "consistent": bool(r)})


def structure(rng, n, lines):
    """The dynamics of an estimated vehicle, from data."""
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.vehicle.uncertainty.estimation import RegressionVehicle
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env import utils
    road = Road(RoadNetwork.straight_road_network(2), np_random=np.random.RandomState(int(rng.randint(1000))))
    v, err = call(lambda: RegressionVehicle.create_from(Vehicle.make_on_lane(road, ("0", "1", 0), 50, speed=20)))
    if err is not None:
        lines.append({"k": "structure", "ok": False, "err": err, "tag": "structure %d" % n})
        return
    road.vehicles.append(v)
    if n % 3:
        road.vehicles.append(Vehicle.make_on_lane(road, ("0", "1", 0), 50 + 10 * (n % 4 + 1), speed=10. + 5 * (n % 5)))
    side = ["longitudinal", "lateral"][n % 2]
    d = [3, 2][n % 2]
    f, y, _ = some_data(rng, d, rng.randint(1, 7))
    data = dataset(f, y)
    v.data = {side: copy.deepcopy(data)}
    if rng.rand() < .5:                     # known bounds of its own
        for field in ("theta_a_i", "theta_b_i"):
            box = np.array(getattr(v, field), float)
            inner = box[0] + (box[1] - box[0]) * np.sort(rng.rand(2, box.shape[1]), axis=0)
            setattr(v, field, inner)

    def go():
        theta, vertices, _, _ = utils.confidence_polytope(copy.deepcopy(data), parameter_box=[v.theta_a_i, v.theta_b_i][n % 2])
        a, phi = getattr(v, side + "_structure")()
        a0, da = getattr(v, side + "_matrix_polytope")()
        return dict(theta=fxs(theta, 1e3), vertices=[fxs(x, 1e3) for x in vertices], a=[fxs(x, 1e2) for x in a], phi=[[fxs(x, 1e2) for x in p] for p in phi],
                    a0=[fxs(x, 1e3) for x in a0], da=[[fxs(x, 1e3) for x in m] for m in da])
    r, err = call(go)
    near = [x for x in road.vehicles if x is not v]
    lines.append(dict({"k": "structure", "ok": err is None, "err": err or "", "tag": "structure %s %d" % (side, n), "side": side,
                       "front": bool(near), "closing": bool(near) and v.speed >= near[0].speed}, **(r or {})))


def lane(i):
    return [str(i[0]), str(i[1]), -1 if i[2] is None else int(i[2])]


def convert(env, make):
    """The traffic of the scene, driven by the given kind of vehicle."""
    out = []
    for v in list(env.road.vehicles):
        if any(v is c for c in env.controlled_vehicles):
            continue
        m = make(v)
        env.road.vehicles[env.road.vehicles.index(v)] = m
        out.append(m)
    return out


CFG = {"intersection": {"other_vehicles_type": "harness.vehicles.PrivateVehicle", "initial_vehicle_count": 8},
       "highway": {"vehicles_count": 8, "lanes_count": 3}}


def network(env):
    return [[str(a), [[str(b), len(lanes)] for b, lanes in to.items()]] for a, to in env.road.network.graph.items()]


def watch(ctx, kind, seed, frames, lines, drivers=4):
    from highway_env.vehicle.behavior import LinearVehicle
    from highway_env.vehicle.uncertainty.estimation import MultipleModelVehicle
    rng = np.random.RandomState(seed)
    env = W.make(kind, CFG.get(kind, {}), seed)
    tag = "%s seed %d" % (kind, seed)

    def make(v):
        m = MultipleModelVehicle.create_from(v)
        m.randomize_behavior()
        return m
    watched, err = call(convert, env, make)
    lines.append({"k": "net", "ok": err is None, "err": err or "", "tag": tag, "net": network(env)})
    if err is not None:
        return
    watched = watched[:drivers]
    net = env.road.network
    for t in range(frames):
        if t and t % 20 == 0:       # some change their mind
            for m in watched:
                if rng.randint(3) == 0:
                    call(m.set_route_at_intersection, int(rng.randint(4)))
        for v in env.road.vehicles:
            if not any(v is m for m in watched) or v.crashed:
                v.act()
                continue
            i = [k for k, m in enumerate(watched) if m is v][0]
            e = {"k": "watch", "id": i, "tag": "%s vehicle %d frame %d" % (tag, i, t), "plan": [lane(x) for x in v.route or []],
                 "v": fx(v.speed, 1e3), "params": fxs(v.ACCELERATION_PARAMETERS, 1e4), "single": all(n == 1 for _, to in network(env) for _, n in to)}
            first = [tuple(r[0]) for r, _ in v.data] + [tuple(x[:2]) + (x[2] if x[2] is not None else 0,) for x in (v.route or [])[:1]]
            e["passed"] = [lane(x) for x in sorted(set(first)) if net.get_lane(x).after_end(v.position)]
            from highway_env.utils import is_consistent_dataset
            flags, er = call(lambda: [bool(is_consistent_dataset(d["lateral"], parameter_box=LinearVehicle.STEERING_RANGE)) if d else True for _, d in v.data])
            e["consistent"] = flags or []
            before, target = (v.position.copy(), v.heading, v.speed), v.target_lane_index
            _, err = call(v.act)
            err = err or er

            def after():
                last = []
                for r, d in v.data:
                    la = net.get_lane(r[0])
                    s, lat = la.local_coordinates(before[0])
                    ahead = la.heading_at(s + before[2] * v.PURSUIT_TAU)
                    last.append({"f": fxs(d["lateral"]["features"][-1], 1e6), "y": fx(d["lateral"]["outputs"][-1], 1e6),
                                 "heading": fx((ahead - before[1] + np.pi) % (2 * np.pi) - np.pi, 1e6), "lateral": fx(lat, 1e6),
                                 "g": fxs(d["longitudinal"]["features"][-1], 1e4), "acc": fx(d["longitudinal"]["outputs"][-1], 1e4)})
                return dict(hyps=[[lane(x) for x in r] for r, _ in v.data], samples=[len(d["lateral"]["outputs"]) for _, d in v.data], last=last,
                            steer=fx(v.action["steering"], 1e6), stays=bool(v.target_lane_index == target))
            r, er = call(after) if err is None else (None, None)
            err = err or er
            lines.append(dict(e, ok=err is None, err=err or "", **(r or {})))
            if err is not None:
                return
            if t % 15 == 7:
                n = len(v.data)
                index = int(rng.randint(n + 2))

                def supposed():
                    a = v.assume_model_is_valid(index)
                    return a, dict({"class": type(a).__name__}, same=bool(np.array_equal(a.position, v.position) and a.heading == v.heading and a.speed == v.speed),
                                   route=[lane(x) for x in a.route or []], target=lane(a.target_lane_index),
                                   data=len(a.data["lateral"]["outputs"]) if n else 0)
                q, err = call(supposed)
                now = [[lane(x) for x in h] for h, _ in v.data] == r["hyps"] and [len(d["lateral"]["outputs"]) for _, d in v.data] == r["samples"]
                lines.append(dict({"k": "assume", "tag": e["tag"], "ok": err is None, "err": err or "", "n": n, "index": index, "hyps": r["hyps"], "samples": r["samples"],
                                   "plan": [lane(x) for x in v.route or []], "kept": bool(now)}, **(q[1] if q else {})))
                if q and rng.randint(3) == 0:       # drive as supposed
                    other = copy.deepcopy(env.road)
                    j = [k for k, x in enumerate(env.road.vehicles) if x is v][0]
                    a = copy.deepcopy(q[0])
                    a.road = other
                    other.vehicles[j] = a

                    def drive():
                        for _ in range(10):
                            other.act()
                            other.step(1 / 15)
                        return fxs(a.position, 1e3) + fxs(getattr(a, "interval").position.ravel(), 1e2) if hasattr(a, "interval") else fxs(a.position, 1e3)
                    x, err = call(drive)
                    lines.append({"k": "forward", "tag": e["tag"], "ok": err is None, "err": err or "", "x": x or []})
        env.road.step(1 / 15)


def twins(kind, seed, frames, lines):
    from highway_env.vehicle.behavior import LinearVehicle
    from highway_env.vehicle.uncertainty.estimation import MultipleModelVehicle
    seen = []
    for cls in (LinearVehicle, MultipleModelVehicle):
        env = W.make(kind, CFG.get(kind, {}), seed)

        def make(v):
            m = cls.create_from(v)
            m.randomize_behavior()
            m.collecting_data = cls is MultipleModelVehicle
            return m
        _, err = call(convert, env, make)

        def drive():
            for _ in range(frames):
                env.road.act()
                env.road.step(1 / 15)
            return [fxs(list(v.position) + [v.heading, v.speed], 1e5) for v in env.road.vehicles]
        r, er = call(drive) if err is None else (None, err)
        seen.append((r, err or er))
    err = seen[0][1] or seen[1][1]
    lines.append({"k": "twin", "ok": err is None, "err": err or "", "tag": "%s seed %d twins" % (kind, seed), "a": seen[0][0] or [], "b": seen[1][0] or []})


def run(ctx):
    ctx.model_check("MCEstimation")
    rng = np.random.RandomState(ctx.seed + 3000)
    big = 1 if ctx.quick else 12
    lines = []
    for n in range(400 * big):
        regression(rng, n, lines)
        consistency(rng, n, lines)
    for n in range(40 * big):
        structure(rng, n, lines)
    ctx.count("data_sets", len(lines))
    ctx.sample(lines[0])
    ctx.judge("EstimationTrace", lines, ntraces=len(lines), timeout=600)
    lines = []
    for kind in ["intersection", "roundabout", "merge", "highway", "two-way"]:
        for i in range((3 if kind in ("intersection", "roundabout") else 1) * (1 if ctx.quick else 6)):
            watch(ctx, kind, ctx.seed * 100 + i, 120 if ctx.quick else 240, lines)
            twins(kind, ctx.seed * 100 + 50 + i, 60 if ctx.quick else 150, lines)
    ctx.count("watched_frames", sum(e["k"] == "watch" for e in lines))
    ctx.count("assumptions", sum(e["k"] == "assume" for e in lines))
    ctx.sample([e for e in lines if e["k"] == "watch"][0])
    ctx.judge("EstimationTrace", lines, ntraces=len(lines), timeout=800)
