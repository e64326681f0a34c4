"""C26: bounds of drivers with uncertain parameters."""
import contextlib
import copy
import io
import math

import numpy as np

from ..core import fx, call
from .c11 import box as rectangle


def mm(i):
    return [fx(i[0], 1000), fx(i[1], 1000)]


def micro(i):
    return [fx(i[0], 1e6), fx(i[1], 1e6)]


def bounds(i):
    return {"x": mm(i.position[:, 0]), "y": mm(i.position[:, 1]), "v": mm(i.speed), "h": micro(i.heading)}


def state(v):
    return [fx(v.position[0], 1e5), fx(v.position[1], 1e5), fx(v.speed, 1e6), fx(v.heading, 1e6)]


def ends(i):
    lo, hi = [[fx(i.position[k, 0], 1e5), fx(i.position[k, 1], 1e5), fx(i.speed[k], 1e6), fx(i.heading[k], 1e6)] for k in (0, 1)]
    return lo, hi


def straight(rng, lanes=2, length=1000.):
    """A straight road of any direction, whose lanes begin 400 m before the origin; the geometry of its lanes."""
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.road.lane import StraightLane
    a = float(rng.choice([0, math.atan2(3, 4), rng.uniform(-3.1, 3.1), 3.1, -2.9]))
    d = np.array([math.cos(a), math.sin(a)])
    side = np.array([-d[1], d[0]])
    o = rng.uniform(-20, 20, 2)
    net = RoadNetwork()
    geo = []
    for i in range(lanes):
        p = o + 4 * i * side - 400 * d
        net.add_lane("a", "b", StraightLane(p, p + length * d))
        geo.append({"x": fx(p[0], 1000), "y": fx(p[1], 1000), "c": fx(d[0], 1e6), "s": fx(d[1], 1e6), "h": fx(a, 1e6)})
    return Road(net, np_random=np.random.RandomState(rng.randint(10 ** 6))), a, (lambda s, r: o + s * d + r * side), geo


def parameters(v, rng):
    if rng.rand() < .5:
        v.theta_a_i = np.sort(np.array([rng.uniform(.05, 1, 2), rng.uniform(.05, 1, 2), rng.uniform(.2, 3, 2)]), axis=1).T.round(4)
    if rng.rand() < .5:
        v.theta_b_i = np.sort(np.array([rng.uniform(1, 6, 2), rng.uniform(2, 9, 2)]), axis=1).T.round(4)
    if rng.rand() < .2:
        v.theta_a_i, v.theta_b_i = np.array([v.theta_a_i[0]] * 2), np.array([v.theta_b_i[0]] * 2)
    return {"target": fx(v.target_speed, 1000), "gap": fx(v.DISTANCE_WANTED, 1000), "time": fx(v.TIME_WANTED, 1000), "most": fx(v.ACC_MAX, 1000),
            "acc": [[fx(x, 1e4) for x in v.theta_a_i[:, j]] for j in range(3)], "steer": [[fx(x, 1e4) for x in v.theta_b_i[:, j]] for j in range(2)]}


def widen(i, v, rng):
    i.position = v.position + np.array([[-1, -1], [1, 1]]) * rng.uniform(0, 3, 2)
    i.speed = v.speed + np.array([-1, 1]) * rng.uniform(0, 2)
    i.heading = v.heading + np.array([-1, 1]) * rng.uniform(0, .3)


def everyone(road, but=None):
    return [(state(v), getattr(v, "interval", None) and ends(v.interval), v.target_speed if hasattr(v, "target_speed") else 0) for v in road.vehicles if v is not but] \
        + [len(road.vehicles), [id(v) for v in road.vehicles]]


def scene(rng):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    road, a, place, geo = straight(rng)
    lane = int(rng.randint(2))
    lat = 4 * lane + rng.uniform(-1, 1)
    v = IntervalVehicle(road, place(0, lat), a + rng.uniform(-.3, .3), float(rng.uniform(4, 30)), target_speed=float(rng.uniform(5, 30)))
    if rng.rand() < .3:
        v.target_lane_index = ("a", "b", 1 - lane)
    if rng.rand() < .8:
        widen(v.interval, v, rng)
    road.vehicles.append(v)
    front = None
    if rng.rand() < .7:
        certain = rng.rand() < .4
        front = (Vehicle if certain else IntervalVehicle)(road, place(rng.uniform(9, 70), 4 * lane + rng.uniform(-.5, .5)), a, float(rng.uniform(0, 30)))
        if not certain:
            widen(front.interval, front, rng)
        road.vehicles.append(front)
    if rng.rand() < .3:
        road.vehicles.append(Vehicle(road, place(rng.uniform(-40, -8), lat), a, 10.))
    rng.shuffle(road.vehicles)
    return road, v, front, geo


def observe(n, rng, lines):
    from highway_env.vehicle.uncertainty.prediction import VehicleInterval
    road, v, front, geo = scene(rng)
    d = parameters(v, rng)
    dt = 1 / float(rng.choice([5, 15, 15, 30]))
    b = bounds(v.interval)
    f = (front.interval if hasattr(front, "interval") else VehicleInterval(front)) if front else None
    # coordinates are rounded to the millimetre, speeds to mm/s
    slack = 60 + int(v.theta_b_i[1][1] * 2e6 / b["v"][0] * (1 + abs(b["y"][1] - b["y"][0]) / b["v"][0] + 8000 / b["v"][0]) * dt)
    zero = {"x": [0, 0], "y": [0, 0], "v": [0, 0]}
    fb = {k: z for k, z in bounds(f).items() if k != "h"} if f else zero
    before = everyone(road, v)
    s0 = state(v)
    _, err = call(v.observer_step, dt)

    def pick(q):
        k = rng.randint(3)
        return q[k] if k < 2 else int(rng.randint(q[0], q[1] + 1))
    ms = [{"x": pick(b["x"]), "y": pick(b["y"]), "v": pick(b["v"]), "h": pick(b["h"]), "front": {k: pick(z) for k, z in fb.items()},
           "acc": [pick(q) for q in d["acc"]], "steer": [pick(q) for q in d["steer"]]} for _ in range(10)]
    lines.append({"k": "observe", "ok": err is None, "err": err or "", "tag": "observer %d" % n, "d": d, "lane": geo[v.target_lane_index[2]], "n": round(1 / dt), "tol": slack,
                  "box": dict(b, ahead=front is not None, front=fb), "m": ms, "after": bounds(v.interval) if not err else {}, "same": before == everyone(road, v) and s0 == state(v)})


def partial(n, rng, lines):
    """The step of the ends of the bounds, against complete steps from these ends."""
    road, v, front, geo = scene(rng)
    parameters(v, rng)
    alpha = float(rng.choice([0, 0, .25]))
    got = []
    sides = []
    for side in (0, 1):
        r2, u = copy.deepcopy((road, v))
        o = v.interval
        for name in ("position", "speed", "heading"):
            q = np.array(getattr(o, name))
            w = q.copy()
            w[1 - side] = (1 - alpha) * q[side] + alpha * q[1 - side]
            setattr(u.interval, name, w)
        _, err = call(u.observer_step, 1 / 15)
        sides.append((u.interval, err))
    before = everyone(road, v)
    s0 = state(v)
    _, err = call(v.partial_observer_step, 1 / 15, alpha)
    err = err or sides[0][1] or sides[1][1]
    e = {"k": "partial", "ok": err is None, "err": err or "", "tag": "partial %d" % n, "same": before == everyone(road, v) and s0 == state(v)}
    if not err:
        a, b = sides[0][0], sides[1][0]
        lo, hi = ends(v.interval)
        e["got"] = [lo, hi]
        e["want"] = [ends(a)[0][:3] + [min(ends(a)[0][3], ends(b)[0][3])], ends(b)[1][:3] + [max(ends(a)[1][3], ends(b)[1][3])]]
    lines.append(e)


def start(n, rng, lines):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.behavior import LinearVehicle, IDMVehicle
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    road, a, place, geo = straight(rng)
    c = [Vehicle, IDMVehicle, LinearVehicle, IntervalVehicle][n % 4]
    v = c(road, place(rng.uniform(-50, 50), rng.uniform(-1, 5)), a + rng.uniform(-.5, .5), float(rng.uniform(0, 30)))
    if n % 4:
        v.target_speed = float(rng.uniform(1, 30))
        v.timer = float(rng.uniform(.1, 1))
        v.target_lane_index = ("a", "b", int(rng.randint(2)))
        v.route = [("a", "b", 1)] if rng.rand() < .5 else None
    if n % 4 == 3:
        parameters(v, rng)
        widen(v.interval, v, rng)
    s = state(v)
    u, err = call(IntervalVehicle.create_from, v)
    e = {"k": "start", "ok": err is None, "err": err or "", "tag": "from %s %d" % (c.__name__, n), "state": s}
    if not err:
        e["lo"], e["hi"] = ends(u.interval)
        u.position += 1.
        v.position += 1.
        u.speed += 1
        e["later"] = ends(u.interval)[0]
        show = lambda x: [fx(x.target_speed, 1e6), fx(x.timer, 1e6), list(map(str, x.target_lane_index)), [list(map(str, r)) for r in x.route or []]] if n % 4 else []
        theta = lambda x: micro(np.ravel(x.theta_a_i)) + micro(np.ravel(x.theta_b_i)) if n % 4 == 3 else []
        e["driver"], e["source"] = [show(u), theta(u)], [show(v), theta(v)]
    lines.append(e)


def history(n, rng, lines):
    """Frames of uncertain vehicles, and of certain ones in the same situation."""
    from highway_env.vehicle.behavior import LinearVehicle
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    mode = ["partial", "predictor", "full"][n % 3]
    seed = rng.randint(10 ** 6)
    roads = []
    for c in (IntervalVehicle, LinearVehicle):
        r = np.random.RandomState(seed)
        road, a, place, geo = straight(r)
        gentle = mode == "full"
        s = 0.
        for i in range(r.randint(1, 4)):
            v = c(road, place(s, r.uniform(-.2, .2) if gentle else r.uniform(-1, 5)), a + (r.uniform(-.03, .03) if gentle else r.uniform(-.1, .1)), float(r.uniform(15, 25)),
                  target_speed=float(r.uniform(15, 28)), timer=float(r.uniform(.1, .9)), enable_lane_change=not gentle and r.rand() < .5)
            s += r.uniform(30, 60)
            road.vehicles.append(v)
        roads.append(road)
    one, two = roads
    crash_at = rng.randint(5, 15) if rng.rand() < .3 and mode != "full" else -1
    dt = 1 / 15
    kept = [[] for _ in one.vehicles]
    for t in range(20):
        for r in roads:
            r.act()
        if t == crash_at:
            one.vehicles[0].crashed = two.vehicles[0].crashed = True
        for i, (v, w) in enumerate(zip(one.vehicles, two.vehicles)):
            before = {"state": state(v), "lo": ends(v.interval)[0], "hi": ends(v.interval)[1]}
            kept[i].append(before)
            _, e2 = call(w.step, dt)
            past = len(v.trajectory)
            if mode == "full":
                _, err = call(v.store_trajectories)
                if not err:
                    _, err = call(v.observer_step, dt)
                if not err:
                    _, err = call(LinearVehicle.step, v, dt)
            else:
                _, err = call(v.step, dt, mode)
            e = {"k": "frame", "ok": err is None and e2 is None, "err": err or e2 or "", "tag": "%s %d frame %d" % (mode, n, t), "past": past, "crashed": bool(v.crashed), "inside": mode == "full",
                 "model": state(v), "twin": state(w), "before": before, "start": kept[i][0]}
            if err is None:
                e["lo"], e["hi"] = ends(v.interval)
                rec = lambda k: {"state": state(v.trajectory[k]), "lo": ends(v.interval_trajectory[k])[0], "hi": ends(v.interval_trajectory[k])[1]}
                e.update(records=len(v.trajectory) if len(v.trajectory) == len(v.interval_trajectory) else -1, last=rec(-1), first=rec(0))
            lines.append(e)
            if not e["ok"]:
                return


def lanes(n, rng, lines):
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    count = int(rng.randint(1, 5))
    road, a, place, geo = straight(rng, count)
    i = int(rng.randint(count))
    far = rng.rand() < .2        # from where the lane on the right cannot be reached
    v = IntervalVehicle(road, place(rng.uniform(0, 500), 4 * i - (9 if far else 0)), a, 20.)
    v.target_lane_index = ("a", "b", i)
    mode, squeeze = ["model", "all", "right"][n % 3], bool(rng.rand() < .5)
    got, err = call(v.get_followed_lanes, lane_change_model=mode, squeeze=squeeze)
    if not err and n % 3 == 0 and rng.rand() < .5:
        got, err = call(v.get_followed_lanes)
    lines.append({"k": "lanes", "ok": err is None, "err": err or "", "tag": "lanes %d" % n, "mode": mode, "squeeze": squeeze, "id": i, "count": count, "right": not far,
                  "got": [int(x[2]) for x in got or []]})


def crash(n, rng, lines):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.controller import MDPVehicle
    from highway_env.vehicle.behavior import IDMVehicle
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    road, a, place, geo = straight(rng)
    v = IntervalVehicle(road, place(0, 0), rng.choice([0, a, rng.uniform(-3, 3)]), float(rng.uniform(0, 30)))
    if rng.rand() < .8:
        widen(v.interval, v, rng)
    c = [MDPVehicle, MDPVehicle, MDPVehicle, IDMVehicle, Vehicle][rng.randint(5)]
    at = v.position + rng.uniform(-9, 9, 2) if rng.rand() < .7 else v.interval.position[rng.randint(2)] + rng.uniform(-4, 4, 2)
    o = c(road, at, rng.choice([0, a, rng.uniform(-3, 3)]), float(rng.uniform(0, 30)))
    if rng.rand() < .1:
        v.crashed = True
    if rng.rand() < .1:
        v.COLLISIONS_ENABLED = False
    if rng.rand() < .15:
        o.crashed = True
    show = lambda x: {"crashed": bool(x.crashed), "v": fx(x.speed, 1e4)}
    i = v.interval
    e = {"k": "crash", "tag": "crash %d" % n, "x": mm(i.position[:, 0]), "y": mm(i.position[:, 1]), "self": rectangle(v), "other": rectangle(o), "worst": c is MDPVehicle,
         "alone": v.crashed or not v.COLLISIONS_ENABLED, "before": [show(v), show(o)]}
    _, err = call(v.check_collision, o)
    lines.append(dict(e, ok=err is None, err=err or "", after=[show(v), show(o)]))


def ahead(n, rng, lines):
    """A prediction, and a driver of the model that it should hold."""
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    road, a, place, geo = straight(rng)
    lane = int(rng.randint(2))
    change = rng.randint(3, 12) if rng.rand() < .4 else -1
    v = IntervalVehicle(road, place(0, 4 * lane + rng.uniform(-1, 1)), a + rng.uniform(-.1, .1), float(rng.uniform(5, 30)), target_speed=float(rng.uniform(5, 30)), enable_lane_change=False)
    road.vehicles.append(v)
    d = parameters(v, rng)
    front = None
    if rng.rand() < .7:
        front = Vehicle(road, place(rng.uniform(15, 90), 4 * lane), a, float(rng.uniform(0, 30)))
        road.vehicles.append(front)
    l = road.network.get_lane(("a", "b", lane))
    x, z = l.local_coordinates(v.position)
    f = l.local_coordinates(front.position)[0] if front else 0.
    s = {"x": fx(x, 1e4), "f": fx(f, 1e4), "v": fx(v.speed, 1e4), "fv": fx(front.speed if front else 0, 1e4), "z": fx(z, 1e4), "p": fx(v.heading - a, 1e4)}
    tag = "prediction %d" % n
    lines.append({"k": "from", "ok": True, "err": "", "tag": tag, "s": s})
    wild = rng.randint(3)
    pick = lambda q: q[rng.randint(2)] if rng.rand() < .7 else int(rng.randint(q[0], q[1] + 1))
    draw = lambda: ({"slows": front is not None and v.speed >= front.speed, "acc": [pick(q) for q in d["acc"]], "steer": [pick(q) for q in d["steer"]]},
                    {"x": int(rng.choice([-1, 1])) * 10000, "z": int(rng.choice([-1, 1])) * 5000})
    slows = front is not None and v.speed >= front.speed
    m, w = draw()
    for t in range(20):
        if wild:
            m, w = draw() if wild == 1 else (m, w)
        m["slows"] = slows
        shift = 0
        if t == change:
            shift = 1 - 2 * lane
            lane += shift
            v.target_lane_index = ("a", "b", lane)
        _, err = call(v.predictor_step, 1 / 15)
        e = {"k": "ahead", "ok": err is None, "err": err or "", "tag": tag, "d": dict(d, target=fx(v.target_speed, 1e4)), "m": m, "w": w, "n": 15, "lane": geo[lane], "shift": 40000 * shift, "tol": 40 + 4 * t}
        if not err:
            i = v.interval
            if max(np.max(np.abs(i.speed)), np.max(np.abs(i.heading)), np.max(np.abs(i.position))) > 3000:
                break           # bounds that do not mean anything any more
            e.update(v=[fx(q, 1e4) for q in i.speed], p=[fx(q - a, 1e4) for q in i.heading], x=[fx(q, 1e4) for q in i.position[:, 0]], y=[fx(q, 1e4) for q in i.position[:, 1]])
        lines.append(e)
        if err:
            break


def record(big, rng, lines):
    for n in range(150 * big):
        observe(n, rng, lines)
        lanes(n, rng, lines)
        crash(n, rng, lines)
        crash(n, rng, lines)
    for n in range(60 * big):
        partial(n, rng, lines)
        start(n, rng, lines)
        ahead(n, rng, lines)
    for n in range(30 * big):
        history(n, rng, lines)


def run(ctx):
    ctx.model_check("MCMembers", workers=8)
    rng = np.random.RandomState(ctx.seed + 2600)
    lines = []
    with contextlib.redirect_stdout(io.StringIO()):
        record(1 if ctx.quick else 12, rng, lines)
    big = 1 if ctx.quick else 12
    ctx.count("events", len(lines))
    ctx.sample(lines[0])
    ctx.judge("MembersTrace", lines, ntraces=240 * big, timeout=850)
    ctx.require("holds_place", "holds_speed", "worst_case_yes", "worst_case_no", "drives_on", "recorded", "followed_lanes", "predicted_speed", "starts_certain")
