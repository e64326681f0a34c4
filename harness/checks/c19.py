"""C19: who is on the road of an intersection: first vehicles, challenger, agents, arrivals and departures."""
import math

import numpy as np

from .. import worlds as W
from ..core import fx, call
from ..geometry import ref_of
from ..vehicles import LoggedVehicle

LOGGED = "harness.vehicles.LoggedVehicle"


def mm(p):
    return [fx(p[0], 1000), fx(p[1], 1000)]


def entrance(net, p, h):
    """The entrance road at p: its number and the coordinates of p; -1 elsewhere."""
    for i in range(4):
        ref = ref_of(net.get_lane(("o%d" % i, "ir%d" % i, 0)))
        s, r = ref.local(p)
        if abs(r) < 1 and -20 < s < ref.n + 20:
            t = ref.tangent(s)
            return i, s, r, bool(abs(math.remainder(h - math.atan2(t[1], t[0]), 2 * math.pi)) < 1e-4)
    return -1, 0, 0, False


def going(v):
    """Destination of the route of a vehicle, and whether it is a way there from its entrance."""
    r = v.route
    if not r:
        return "", False
    ok = all(a[1] == b[0] for a, b in zip(r, r[1:])) and all(b in v.road.network.graph.get(a, {}) for a, b, _ in r)
    return r[-1][1], ok


def node(n):
    return int(n[1:]) if n[:1] == "o" else -1


def attempts(env, log, what, n, tag, lines, sure=True):
    net = env.road.network
    for j, (v, p, h, speed, others, steps) in enumerate(log):
        if v.road is not env.road:
            continue
        arm, s, r, along = entrance(net, p, h)
        w = what
        if what == "reset":
            w = "early" if steps == 0 else "challenger"
        later = [x for (_, _, _, _, o, _) in log[j + 1:] for x, _ in o] + list(env.road.vehicles)
        added = "yes" if any(x is v for x in later) else "no" if sure or j + 1 < len(log) and log[j + 1][0].road is env.road else "unknown"
        to, way = going(v) if added == "yes" else ("", True)
        if added == "yes" and way and what != "reset":
            way = bool(v.route[0][0] == "o%d" % arm)        # has not moved yet
        lines.append({"k": "attempt", "ok": True, "tag": tag, "what": w, "n": n, "p": mm(p), "others": [mm(q) for _, q in others], "arm": arm,
                      "s": fx(s, 1000), "r": fx(r, 1000), "along": along, "speed": fx(speed, 1000), "added": added, "to": node(to),
                      "route": way, "randomized": bool(v.told)})


def reset(env, cfg, seed, tag, lines):
    LoggedVehicle.log = log = []
    env.seed(seed)
    _, err = call(env.reset)
    log = [e for e in log if e[0].road is env.road]
    n = cfg.get("initial_vehicle_count", 10)
    sf = env.config["simulation_frequency"]
    e = {"k": "reset", "ok": err is None, "err": err or "", "tag": tag}
    if not err:
        # the last one may have been taken away for the agents
        attempts(env, log, "reset", n, tag, lines, sure=False)
        ag = []
        for v in env.controlled_vehicles:
            arm, s, r, along = entrance(env.road.network, v.position, v.heading)
            ag.append({"present": any(x is v for x in env.road.vehicles), "arm": arm, "s": fx(s, 1000), "r": fx(r, 1000), "along": along, "p": mm(v.position),
                       "speed": fx(v.speed, 1000), "target": fx(v.target_speed, 1000), "to": going(v)[0],
                       "allowed": [fx(v.index_to_speed(i), 1000) for i in range(v.SPEED_COUNT)]})
        others = [v for v in env.road.vehicles if not any(v is c for c in env.controlled_vehicles)]
        late = [x for x in log if x[5] > 0]
        e.update(agents=ag, others=[mm(v.position) for v in others], n=n, destination=cfg.get("destination") or "random", frequency=sf,
                 challengers=len(late), frames=late[0][5] if late else -1)
        if "destination" not in cfg:
            e["destination"] = env.config["destination"] or "random"
    lines.append(e)
    return err


def step(env, rng, tag, lines):
    """A step; vehicles may be moved near the ends of roads before."""
    net = env.road.network
    for v in env.road.vehicles:
        if rng.rand() < .15 and (v not in env.controlled_vehicles or rng.rand() < .2):
            i = rng.randint(4)
            a, b = ("il%d" % i, "o%d" % i) if rng.rand() < (.7 if v not in env.controlled_vehicles else .4) else ("o%d" % i, "ir%d" % i)
            lane = net.get_lane((a, b, 0))
            s = lane.length - 20 - 8 + rng.uniform(-3, 12) if rng.rand() < .8 else rng.uniform(0, lane.length)
            if a[0] == "o" and rng.rand() < .5:         # about where others arrive
                s = rng.uniform(0, 22)
            v.position = np.array(lane.position(s, 0.))
            v.heading = lane.heading_at(s)
            v.route = [(a, b, 0)]
            if hasattr(v, "target_lane_index"):
                v.target_lane_index = (a, b, 0)
            v.on_state_update()
        elif rng.rand() < .02 and v not in env.controlled_vehicles:
            v.route = None
    before = list(env.road.vehicles)
    LoggedVehicle.log = log = []
    _, err = call(env.step, W.sample_action(env, rng))
    e = {"k": "step", "ok": err is None, "err": err or "", "tag": tag}
    if not err:
        after = list(env.road.vehicles)
        vs = []
        for v in before:
            ref = ref_of(net.get_lane(v.lane_index))
            vs.append({"agent": any(v is c for c in env.controlled_vehicles), "noroute": v.route is None,
                       "exit": v.lane_index[0].startswith("il"), "s": fx(ref.local(v.position)[0], 1000), "length": fx(ref.n, 1000),
                       "kept": any(v is x for x in after)})
        new = [v for v in after if not any(v is x for x in before)]
        entries = []
        for i in range(4):
            entries.append(mm(ref_of(net.get_lane(("o%d" % i, "ir%d" % i, 0))).position(5., 0.)))
        e.update(v=vs, new=len(new), attempts=len(log), p=int(round(100 * env.config["spawn_probability"])), entries=entries,
                 places=[mm(v.position) for v in after if not any(v is x for x in new)])
        attempts(env, log, "arrival", 0, tag, lines)
    lines.append(e)
    return e


def run(ctx):
    ctx.model_check("MCPopulation")
    rng = np.random.RandomState(ctx.seed + 1900)
    lines = []
    big = 1 if ctx.quick else 12
    tried = {}
    for n in range(45 * big):
        kind = ["intersection", "multi-intersection"][n % 2]
        p = float([0, 1, .6, .3, 1, .6][n % 6])
        cfg = {"other_vehicles_type": LOGGED, "spawn_probability": p, "initial_vehicle_count": int([10, 10, 1, 4, 16, 2][rng.randint(6)]), "duration": 10 ** 6,
               "policy_frequency": int([1, 5][rng.randint(2)])}
        if cfg["policy_frequency"] == 1:
            cfg["simulation_frequency"] = 5
        if kind[0] == "m":
            cfg["controlled_vehicles"] = int(rng.randint(1, 5))
        if rng.rand() < .4:
            cfg["destination"] = [None, "o1", "o3", "o2"][rng.randint(4)]
        env, err = call(W.cls(kind), dict(cfg))
        if err:
            lines.append({"k": "reset", "ok": False, "err": err, "tag": "making %s" % kind})
            continue
        tag = "%s %d p=%s" % (kind, n, p)
        if reset(env, cfg, int(rng.randint(10 ** 6)), tag, lines):
            continue
        for t in range(25 if ctx.quick else 30):
            e = step(env, rng, tag, lines)
            if not e["ok"]:
                break
            k = tried.setdefault(e["p"], [0, 0])
            k[0] += 1
            k[1] += e["attempts"] > 0
            if all(v.crashed for v in env.controlled_vehicles):
                break
    for n in range(6 * big):        # more agents than entrances: those who share one may take away each other, so only their places are judged
        k = 5 + n % 3
        env, err = call(W.cls("multi-intersection"), {"other_vehicles_type": LOGGED, "controlled_vehicles": k, "initial_vehicle_count": 1 + n % 4, "simulation_frequency": 5})
        at = []
        if not err:
            at = [entrance(env.road.network, v.position, v.heading) for v in env.controlled_vehicles]
        lines.append({"k": "crowd", "ok": err is None, "err": err or "", "tag": "%d agents" % k, "n": k,
                      "agents": [{"arm": a, "s": fx(s, 1000), "r": fx(r, 1000), "along": along} for a, s, r, along in at]})
    resets = [l for l in lines if l["k"] == "reset" and l["ok"]]
    lines.append({"k": "challengers", "ok": True, "tag": "all", "resets": len(resets), "seen": sum(l["challengers"] for l in resets)})
    tries = [l for l in lines if l["k"] == "attempt" and l["what"] != "challenger"]
    for what, x in (("places", [l["s"] - 5000 for l in tries if l["what"] == "arrival"]), ("speeds", [l["speed"] - 8000 for l in tries])):
        if len(x) > 100:
            lines.append({"k": "spread", "ok": True, "tag": what, "x": x[:1000], "tol": int(1000 * 5.5 * math.sqrt(2 / min(len(x), 1000)))})
    places = sum(max(l["n"] - 1, 0) for l in resets)
    early = sum(l["k"] == "attempt" and l["what"] == "early" for l in lines)
    if places > 150:
        lines.append({"k": "rate", "ok": True, "tag": "first vehicles", "p": 60, "steps": places, "attempts": early})
    for p, (steps, att) in sorted(tried.items()):
        if p in (30, 60) and steps > 150:
            lines.append({"k": "rate", "ok": True, "tag": "arrivals", "p": p, "steps": steps, "attempts": att})
    ctx.count("steps", sum(l["k"] == "step" for l in lines))
    ctx.count("attempts", sum(l["k"] == "attempt" for l in lines))
    ctx.sample(lines[0])
    ctx.judge("PopulationTrace", lines, ntraces=45 * big, timeout=850)
    ctx.require("room_yes", "destination", "own_behaviour", "agents", "agents_go", "calm", "challenger",
                "simulated", "left", "some_left", "one_at_most", "never", "always", "place_early", "place_arrival", "place_challenger")
