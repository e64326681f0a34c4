"""Scenes with simulated drivers, and records of their decisions."""
import math

import numpy as np

from . import worlds as W
from .core import fx, call
from .geometry import ref_of

LANE = "%s>%s>%s"


def name(i):
    return LANE % (i[0], i[1], i[2])


def kind(o):
    from highway_env.road.objects import RoadObject, Landmark
    from highway_env.vehicle.controller import ControlledVehicle
    if isinstance(o, Landmark):
        return "landmark"
    if isinstance(o, RoadObject):
        return "obstacle"
    return "controlled" if isinstance(o, ControlledVehicle) else "plain"


def entity(o):
    c, s = math.cos(o.heading), math.sin(o.heading)
    k = kind(o)
    return {"kind": k, "v": fx(o.speed, 1e5), "vx": fx(o.speed * c, 1e5), "vy": fx(o.speed * s, 1e5), "dx": fx(c, 1e6), "dy": fx(s, 1e6),
            "ts": fx(getattr(o, "target_speed", 0), 1e5), "lane": name(o.lane_index) if hasattr(o, "speed_index") or k in ("controlled", "plain") else "",
            "target": name(o.target_lane_index) if k == "controlled" else ""}


def params(v):
    from highway_env.vehicle.behavior import LinearVehicle
    lin = isinstance(v, LinearVehicle)
    if v.DELTA != 4:
        raise NotImplementedError
    p = {"model": "linear" if lin else "idm", "comfort": fx(v.COMFORT_ACC_MAX, 1e4), "brake0": fx(-v.COMFORT_ACC_MIN, 1e4),
         "sq": fx(math.sqrt(-v.COMFORT_ACC_MAX * v.COMFORT_ACC_MIN), 1e4), "accmax": fx(v.ACC_MAX, 1e4),
         "gain": fx(v.LANE_CHANGE_MIN_ACC_GAIN, 1e4), "unsafe": fx(v.LANE_CHANGE_MAX_BRAKING_IMPOSED, 1e4), "d0": fx(v.DISTANCE_WANTED, 1e4),
         "tau": fx(v.TIME_WANTED, 1e3), "polite": fx(v.POLITENESS, 1e3), "delay": fx(v.LANE_CHANGE_DELAY, 1e6),
         "k1": 0, "k2": 0, "k3": 0, "q1": 0, "q2": 0}
    if lin:
        k, q = v.ACCELERATION_PARAMETERS, v.STEERING_PARAMETERS
        p.update(k1=fx(k[0], 1e6), k2=fx(k[1], 1e6), k3=fx(k[2], 1e6), q1=fx(q[0], 1e6), q2=fx(q[1], 1e6))
    return p


class Geometry:
    def __init__(self, net):
        self.net, self.refs = net, {}

    def ref(self, i):
        if i not in self.refs:
            self.refs[i] = ref_of(self.net.get_lane(i))
        return self.refs[i]


def snapshot(v, geo):
    """The scene of a driver about to decide."""
    road = v.road
    others = [o for o in road.vehicles if o is not v]
    es = [v] + others + list(road.objects)
    lanes = [v.lane_index] + [i for i in road.network.side_lanes(v.lane_index)]
    facts = []
    plane = all(geo.ref(i).kind == "straight" and tuple(geo.ref(i).d) == (1., 0.) for i in lanes)
    for i in lanes:
        r = geo.ref(i)
        facts.append({"name": name(i), "id": int(i[2]), "length": fx(r.n, 1000), "width": fx(r.k["width"], 1000),
                      "forbidden": bool(r.k["forbidden"]),
                      "c": [dict(zip("sr", (fx(x, 1000) for x in r.local(o.position))), tie=bool(plane and o.position[0] == v.position[0])) for o in es]})
    d = []
    for o in es:
        if kind(o) in ("controlled", "plain"):
            r = geo.ref(o.lane_index)
            s0 = r.local(o.position)[0]
            d.append([fx(r.local(x.position)[0] - s0, 1e4) for x in es])
        else:
            d.append([0] * len(es))
    route = v.route
    end = geo.ref(v.target_lane_index)
    return {"o": [entity(o) for o in es], "p": params(v), "d": d, "lanes": facts,
            "pref": int((route[0][2] or 0)) if route else 0, "crashed": bool(v.crashed), "enabled": bool(v.enable_lane_change),
            "sameroad": v.lane_index[:2] == v.target_lane_index[:2], "timer": fx(v.timer, 1e6),
            "ended": bool(end.local(v.position)[0] > end.n - 2.5 - 1e-6), "v": fx(v.speed, 1e5), "ok": True, "err": ""}


def decide(v, geo, what, tag):
    """Let a driver decide, and record it."""
    e = snapshot(v, geo)
    before = dict(v.action)
    h, speed, pos = float(v.heading), float(v.speed), v.position.copy()
    _, err = call(v.act)
    e.update(k=what, tag=tag, ok=err is None, err=err or "", newtarget=name(v.target_lane_index), newtimer=fx(v.timer, 1e6))
    if what == "drive":
        a = v.action
        t = geo.ref(v.target_lane_index)
        s, r = t.local(pos)
        tg = t.tangent(s + speed * .1)
        nz = speed if abs(speed) > .01 else .01 if speed > 0 else -.01
        e.update(acc=fx(a["acceleration"], 1e4), steer=fx(a["steering"], 1e6), same=a == before, r=fx(r, 1e5),
                 fh=fx(math.atan2(tg[1], tg[0]), 1e6), h=fx(math.remainder(h, 2 * math.pi), 1e6),
                 hc=fx(math.asin(max(-1., min(1., -5 / 3 * r / nz))), 1e6), steerable=bool(abs(speed) >= 1 and abs(r) < 30))
    return e


def maximum(v, y, geo, tag):
    """The speed from which a driver could still stop behind another one."""
    e = {"k": "maximum", "tag": tag, "p": params(v), "alone": y is None, "v": fx(v.speed, 1e3), "ts": fx(v.target_speed, 1e3), "d": 0, "v1": 0}
    if y is not None:
        r = geo.ref(v.lane_index)
        d = r.local(y.position)[0] - r.local(v.position)[0] - v.LENGTH / 2 - y.LENGTH / 2
        e.update(d=fx(d, 1e3), v1=fx(y.speed, 1e3))
    target = v.target_speed
    r, err = call(lambda: [fx(x, 1e3) for x in v.maximum_speed(y)])
    e.update(ok=err is None and len(r) == 2, err=err or "", got=r or [], newts=fx(v.target_speed, 1e3))
    v.target_speed = target
    return e


def recover(v, geo, tag):
    """Reversing when stopped on a wrong lane."""
    e = snapshot(v, geo)
    target = [i for i, f in enumerate(e["lanes"]) if f["name"] == name(v.target_lane_index)]
    if not target:
        return None
    r = geo.ref(v.lane_index)
    s0 = r.local(v.position)[0]
    d = [fx(s0 - r.local(o.position)[0], 1e3) for o in [v] + [x for x in v.road.vehicles if x is not v] + list(v.road.objects)]
    got, err = call(v.recover_from_stop, 1.25)
    e.update(k="recover", tag=tag, ok=err is None, err=err or "", got=fx(got, 1e4) if err is None else 0, at=target[0] + 1, behind=d)
    return e


def documented(rng):
    """Parameters of fresh drivers of every class."""
    lines = []
    for c in drivers():
        road, v = scene(rng)
        p = params(c(road, v.position, v.heading, 20.))
        lines.append({"k": "documented", "ok": True, "class": c.__name__, "p": p, "tag": c.__name__})
    return lines


def collected(v, geo, tag):
    """What a linear driver records for the regression of its parameters."""
    e = snapshot(v, geo)
    had = len(v.data.get("longitudinal", {"features": []})["features"])
    t = geo.ref(v.target_lane_index)
    s, r = t.local(v.position)
    tg = t.tangent(s + v.speed * .1)
    h, speed = v.heading, v.speed
    _, err = call(v.collect_data)
    e.update(k="data", tag=tag, ok=err is None, err=err or "")
    if err is None:
        a, b = v.data["longitudinal"], v.data["lateral"]
        e["ok"] = len(a["features"]) == len(a["outputs"]) == had + 1
        e.update(dot=fx(np.dot(v.ACCELERATION_PARAMETERS, a["features"][-1]), 1e4), out=fx(a["outputs"][-1], 1e4),
                 ldot=fx(np.dot(v.STEERING_PARAMETERS, b["features"][-1]), 1e6), lout=fx(b["outputs"][-1], 1e6), r=fx(r, 1e5),
                 fh=fx(math.atan2(tg[1], tg[0]), 1e6), h=fx(math.remainder(h, 2 * math.pi), 1e6), steerable=bool(abs(speed) >= 1 and abs(r) < 30))
    return e


def drivers():
    from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle, AggressiveVehicle, DefensiveVehicle
    return IDMVehicle, LinearVehicle, AggressiveVehicle, DefensiveVehicle


def own_parameters(v, rng):
    """Parameters of its own for a driver."""
    for k, lo, hi in (("ACC_MAX", 3, 8), ("COMFORT_ACC_MAX", 1, 6), ("DISTANCE_WANTED", 5, 12), ("TIME_WANTED", .5, 3), ("POLITENESS", 0, 1),
                      ("LANE_CHANGE_MIN_ACC_GAIN", 0, 1), ("LANE_CHANGE_MAX_BRAKING_IMPOSED", 1, 6), ("LANE_CHANGE_DELAY", .2, 2)):
        if rng.rand() < .5:
            setattr(v, k, round(float(rng.uniform(lo, hi)), 3))
    if rng.rand() < .5:
        v.COMFORT_ACC_MIN = -round(float(rng.uniform(1, 6)), 3)
    if v.LANE_CHANGE_DELAY < .2:
        v.LANE_CHANGE_DELAY = .2


def scene(rng, change=False):
    """A straight road with a few vehicles of any class; returns (road, driver)."""
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.road.lane import StraightLane
    from highway_env.road.objects import Obstacle, Landmark
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
    net = RoadNetwork()
    n = rng.randint(1, 5) if not change else rng.randint(2, 5)
    th = rng.choice([0, rng.uniform(-3, 3)])
    d = np.array([math.cos(th), math.sin(th)])
    side = np.array([-d[1], d[0]])
    o = rng.uniform(-50, 50, 2)
    length = float(rng.choice([600, 600, 140]))
    for i in range(n):
        lo = 0. if rng.rand() < .8 else float(rng.uniform(-20, 20))
        net.add_lane("a", "b", StraightLane(o + 4 * i * side + lo * d, o + 4 * i * side + length * d, width=4., forbidden=bool(rng.rand() < .1),
                                           speed_limit=float(rng.choice([20, 20, 5, 10, 40]))))
    crossing = bool(change and rng.rand() < .12)        # several head for the same lane, about the end of a road
    if crossing or rng.rand() < .6:
        for i in range(n):
            net.add_lane("b", "c", StraightLane(o + 4 * i * side + length * d, o + 4 * i * side + (length + 300) * d, width=4.))
    road = Road(net, np_random=np.random.RandomState(rng.randint(10 ** 6)))
    cl = drivers()
    cv = cl[0] if rng.rand() < .6 else cl[rng.randint(4)]
    s0 = float(rng.uniform(length - 30 if crossing else 20, length - 15))
    dense = float(rng.choice([12, 30, 80]))
    vs = []
    for j in range(rng.randint(2, 7)):
        i = ("a", "b", int(rng.randint(n)))
        lane = net.get_lane(i)
        s = s0 if j == 0 else s0 + float(rng.uniform(-dense, dense))
        if net.graph.get("b") and s > length:
            i = ("b", "c", i[2])
            lane, s = net.get_lane(i), s - length
        speed = float(np.round(rng.choice([rng.uniform(0, 35), rng.uniform(18, 26), 20., 0. if rng.rand() < .3 else 24.]), 3))
        if rng.rand() < .1:
            speed = float(np.round(rng.uniform(-10, 0), 3))
        c = cv if j == 0 else (cl + (Vehicle, ControlledVehicle, MDPVehicle, IDM(), IDM()))[rng.randint(9)]
        lat = float(rng.choice([0, rng.uniform(-.5, .5), rng.uniform(-2.2, 2.2)]))
        abreast = j and th == 0 and rng.rand() < .12
        v = c(road, lane.position(s, lat), lane.heading_at(s) + rng.choice([0, rng.uniform(-.2, .2)]), speed)
        if abreast:
            v.position[0] = vs[0].position[0]
            v.on_state_update()
        if kind(v) == "controlled":
            if not hasattr(v, "speed_index"):
                v.target_speed = float(np.round(rng.choice([rng.uniform(.5, 35), speed + rng.uniform(0, 4), 30., 25.]), 3))
            if not (j and crossing) and rng.rand() < (.35 if j else .9 if crossing else .3 if change else .15):
                sl = net.side_lanes(v.lane_index)
                if sl:
                    v.target_lane_index = sl[rng.randint(len(sl))]
            elif j and change and rng.rand() < (.8 if crossing else .2) and kind(vs[0]) == "controlled":     # heads for the same lane, from anywhere
                v.target_lane_index = vs[0].target_lane_index
            if rng.rand() < .3:
                v.route = [("a", "b", None if rng.rand() < .2 else int(rng.randint(n)))] + ([("b", "c", None)] if net.graph.get("b") else [])
        if j and rng.rand() < .1:
            v.crashed = True
        vs.append(v)
        road.vehicles.append(v)
    for _ in range(rng.randint(3)):
        i = ("a", "b", int(rng.randint(n)))
        lane = net.get_lane(i)
        c = Obstacle if rng.rand() < .7 else Landmark
        road.objects.append(c(road, lane.position(s0 + rng.uniform(-60, 60), rng.uniform(-2, 2))))
    v = vs[0]
    rng.shuffle(road.vehicles)
    if rng.rand() < .5:
        own_parameters(v, rng)
    if rng.rand() < .08:
        v.crashed = True
        v.action = {"steering": .1, "acceleration": 1.}
    v.enable_lane_change = bool(rng.rand() < .9)
    v.timer = float(rng.choice([v.LANE_CHANGE_DELAY * rng.uniform(0, 1), v.LANE_CHANGE_DELAY + rng.uniform(0, 1)], p=[.2, .8] if change else [.5, .5]))
    return road, v


def IDM():
    from highway_env.vehicle.behavior import IDMVehicle
    return IDMVehicle


EPISODES = [("highway", {"vehicles_count": 12, "lanes_count": 4}), ("highway", {"vehicles_count": 14, "vehicles_density": 2, "lanes_count": 3}),
            ("merge", {}), ("roundabout", {}), ("two-way", {}), ("intersection", {}),
            ("highway", {"vehicles_count": 12, "vehicles_density": 1.5, "action": {"type": "ContinuousAction"}})]


def episodes(rng, seed, big, what, frames=40, stride=5):
    """Traffic of the environments: every driver of some frames decides in turn, then the road moves."""
    kinds = ["behavior.IDMVehicle", "behavior.LinearVehicle", "behavior.AggressiveVehicle", "behavior.DefensiveVehicle"]
    lines = []
    for n in range(len(EPISODES) * big):
        k, cfg = EPISODES[n % len(EPISODES)]
        cfg = dict(cfg)
        cl = kinds[(n + seed) % 4] if n % 2 else kinds[0]
        cfg["other_vehicles_type"] = "harness.vehicles.PrivateVehicle" if k == "intersection" and "IDM" in cl else "highway_env.vehicle." + cl
        if k == "merge":
            cfg["observation"] = {"type": "Kinematics"}
        env = W.cls(k)(cfg)
        env.seed(seed + 31 * n)
        env.reset()
        env.action_type.act(W.sample_action(env, rng))
        geo = Geometry(env.road.network)
        dt = 1 / env.config["simulation_frequency"]
        for f in range(frames):
            for v in list(env.road.vehicles):
                if isinstance(v, drivers()[0]) and f % stride == n % stride and v.DELTA == 4:
                    tag = "%s %d frame %d" % (k, n, f)
                    speed = v.speed
                    if what == "drive" and rng.rand() < .12:
                        v.speed = -float(rng.uniform(1, 15))
                    lines.append(decide(v, geo, what, tag))
                    v.speed = speed
                    if what == "change":        # traffic changes lanes, except on the two-way road
                        lines[-1]["enabled"] = k != "two-way"
                else:
                    v.act()
            if what == "change" and f % stride == 0:
                ds = [(v, fx(v.timer, 1e6)) for v in env.road.vehicles if isinstance(v, drivers()[0])]
                env.road.step(dt)
                lines += [{"k": "frame", "ok": True, "before": b, "after": fx(v.timer, 1e6), "dt": fx(dt, 1e6), "tag": "%s %d" % (k, n)} for v, b in ds[:3]]
            else:
                env.road.step(dt)
    return lines


def platoon(rng):
    """Drivers behind a leader who brakes, cruises or speeds up at will, from the desired gaps on."""
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.vehicle.kinematics import Vehicle
    road = Road(RoadNetwork.straight_road_network(1, length=3000), np_random=np.random.RandomState(1))
    c = drivers()[0]
    n = rng.randint(1, 4)
    sp = [float(np.round(rng.uniform(0, 30), 2)) for _ in range(n + 1)]
    x = 500.
    lead = Vehicle(road, [x, 0], 0, sp[0])
    road.vehicles = [lead]
    for i in range(n):
        f = c(road, [x, 0], 0, sp[i + 1], target_speed=float(rng.choice([30., 25., 35.])))
        x -= max(f.desired_gap(f, road.vehicles[-1]), 6.) + float(rng.choice([0, 10, 40]))
        f.position[0] = x
        f.on_state_update()
        road.vehicles.append(f)
    gaps = []
    dt = 1 / 15
    for t in range(150):
        if t % 30 == 0:
            al = (-5, 0, 3)[rng.randint(3)]
        road.act()
        lead.action = {"steering": 0, "acceleration": al if 0 < lead.speed + al * dt < 30 else -lead.speed / dt if al < 0 else 0}
        road.step(dt)
        gaps += [fx(a.position[0] - b.position[0], 1e4) for a, b in zip(road.vehicles, road.vehicles[1:])]
    return {"k": "platoon", "ok": True, "gaps": [min(gaps)], "crashed": any(v.crashed for v in road.vehicles), "speeds": fx(max(v.speed for v in road.vehicles), 1e5), "tag": str(sp)}
