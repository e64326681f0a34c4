"""C13: meta-actions, their availability, and allowed speeds."""
import copy

import numpy as np

from .. import worlds as W, scenes as S
from ..core import fx, call
from .c07 import allowed_speeds


def lane_facts(net, l, pos):
    out = []
    for lane in net.graph[l[0]][l[1]]:
        s, r = lane.local_coordinates(pos)
        out.append({"s": fx(s, 1000), "lat": fx(r, 1000), "width": fx(lane.width_at(s), 1000), "length": fx(lane.length, 1000),
                    "forbidden": bool(lane.forbidden)})
    return out


def state(v):
    t = v.target_lane_index
    return {"road": "%s>%s" % (t[0], t[1]), "lane": int(t[2]), "sidx": int(getattr(v, "speed_index", -1)),
            "ts": fx(v.target_speed, 1000)}


def facts(v, base, tag):
    """State of a vehicle about to act; base: the lane it follows (it may just have reached the end of one)."""
    mdp = hasattr(v, "speed_index")
    return {"tag": tag, "s": dict(state(v), road="%s>%s" % (base[0], base[1]), lane=int(base[2])),
            "lanes": lane_facts(v.road.network, base, v.position), "mdp": mdp,
            "speeds": [fx(x, 1000) for x in allowed_speeds(v)] if mdp else [0], "speed": fx(v.speed, 1000)}


def followed(v):
    """The lane followed next, by the real (separately checked) road following, on a copy."""
    t = copy.deepcopy(v)
    t.follow_road()
    return t.target_lane_index


def digest(vs):
    return [(tuple(v.position), v.heading, v.speed, getattr(v, "target_lane_index", None), getattr(v, "target_speed", None),
             getattr(v, "speed_index", None), repr(v.action)) for v in vs]


def shake(env, rng, v):
    """Put a vehicle at a varied place of its surroundings, with varied targets."""
    net = env.road.network
    lanes = [(a, b, i) for a in net.graph for b in net.graph[a] for i in range(len(net.graph[a][b]))]
    if rng.rand() < .5:
        several = [l for l in lanes if len(net.graph[l[0]][l[1]]) > 1]
        if several and rng.rand() < .5:
            lanes = several
        l = lanes[rng.randint(len(lanes))]
        lane = net.get_lane(l)
        s = rng.uniform(-6, lane.length + 6) if rng.rand() < .4 else rng.uniform(0, lane.length)
        v.position = np.array(lane.position(s, rng.uniform(-6, 6))).astype(float)
        v.heading = lane.heading_at(s) + rng.uniform(-.3, .3)
        v.on_state_update()
        side = [l] + net.side_lanes(l)
        v.target_lane_index = side[rng.randint(len(side))]
    v.crashed = bool(rng.rand() < .2)     # the targets of a wreck change all the same
    if hasattr(v, "speed_index"):
        sp = allowed_speeds(v)
        v.speed_index = int(rng.randint(len(sp)))
        v.target_speed = v.index_to_speed(v.speed_index)
        v.speed = float(rng.choice([rng.uniform(-2, 40), sp[rng.randint(len(sp))], sp[rng.randint(len(sp))] + rng.uniform(-2.6, 2.6)]))
    else:
        v.speed = float(rng.uniform(0, 35))


def run(ctx):
    from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
    ctx.model_check("MCMetaAction")
    rng = np.random.RandomState(ctx.seed + 1300)
    lines = []
    for kind in ["highway", "merge", "roundabout", "two-way", "intersection", "multi-intersection"]:
        axes = [(True, True), (True, False), (False, True)] if kind not in ("merge", "roundabout") else [(True, True)]
        for lon, lat in axes * (2 if ctx.quick else 8):
            cfg = {"action": {"type": "DiscreteMetaAction", "longitudinal": lon, "lateral": lat}}
            multi = kind == "multi-intersection"
            if multi:
                cfg = {"controlled_vehicles": 2, "action": {"type": "MultiAgentAction", "action_config": cfg["action"]}}
            if kind == "highway":
                cfg.update({"vehicles_count": 3, "lanes_count": int(rng.randint(1, 6))})
            env = S.scene_env(kind, cfg, int(rng.randint(10 ** 6)))
            tag = "%s lon=%s lat=%s" % (kind, lon, lat)
            for t in range(14 if ctx.quick else 60):
                for v in env.controlled_vehicles:
                    shake(env, rng, v)
                if not multi:
                    v = env.vehicle
                    base = v.target_lane_index
                    acts, err = call(env.get_available_actions)
                    lines.append(dict(facts(v, base, tag), k="avail", lon=lon, lat=lat, ok=err is None, err=err or "",
                                      acts=[int(a) for a in (acts or [])]))
                # the same action type acts on each controlled vehicle
                n = 5 if lon and lat else 3
                idx = [int(rng.randint(n)) for _ in env.controlled_vehicles]
                ev = [dict(facts(v, followed(v), tag), k="act", lon=lon, lat=lat, index=i, label="")
                      for v, i in zip(env.controlled_vehicles, idx)]
                if t % 3 and not multi:
                    # in road ends, several roads may follow: restrict to the lane reached by the copy
                    pass
                rest = [v for v in env.road.vehicles if v not in env.controlled_vehicles]
                before = digest(rest)
                _, err = call(env.action_type.act, tuple(idx) if multi else idx[0])
                for e, v in zip(ev, env.controlled_vehicles):
                    e.update({"t": state(v), "ok": err is None, "err": err or "", "others": digest(rest) == before})
                    lines.append(e)
                env.road.act()
                env.road.step(1 / 15)
            # labels handed directly to vehicles, with or without a discrete set of speeds
            for t in range(30 if ctx.quick else 100):
                cls = [ControlledVehicle, MDPVehicle][t % 2]
                v = cls(env.road, env.vehicle.position, env.vehicle.heading, speed=float(rng.uniform(0, 35)))
                shake(env, rng, v)
                label = ["LANE_LEFT", "IDLE", "LANE_RIGHT", "FASTER", "SLOWER"][rng.choice(5, p=[.3, .1, .3, .15, .15])]
                e = dict(facts(v, followed(v), tag + " " + cls.__name__), k="act", label=label, index=0, lon=True, lat=True)
                before = digest(env.road.vehicles)
                _, err = call(v.act, label)
                e.update({"t": state(v), "ok": err is None, "err": err or "", "others": digest(env.road.vehicles) == before})
                lines.append(e)
            v = env.vehicle
            sp = allowed_speeds(v)
            probe = [float(x) for x in np.concatenate([sp, rng.uniform(-5, 45, 12), [-100, 0, 200]])]
            lines.append({"k": "speeds", "kind": W.task(kind), "tag": tag, "speeds": [fx(x, 1000) for x in sp],
                          "got": [fx(v.index_to_speed(i), 1000) for i in range(len(sp))],
                          "probe": [fx(x, 1000) for x in probe], "idx": [int(v.speed_to_index(x)) for x in probe]})
            ask = float(rng.uniform(1, 40))
            m = MDPVehicle(env.road, v.position, v.heading, speed=float(rng.uniform(0, 35)), target_speed=ask)
            lines.append({"k": "new", "tag": tag, "speeds": [fx(x, 1000) for x in allowed_speeds(m)], "asked": fx(ask, 1000),
                          "sidx": int(m.speed_index), "ts": fx(m.target_speed, 1000)})
    # vehicles with speeds of their own, a single one for some, and the speed index of anyone
    env = S.scene_env("highway", {"vehicles_count": 2, "lanes_count": 3}, int(rng.randint(10 ** 6)))
    for n in range(20 if ctx.quick else 200):
        lo = float(rng.choice([0, 5, 20, rng.uniform(0, 20)]))
        own = type("Own", (MDPVehicle,), {"SPEED_COUNT": int(rng.choice([1, 2, 3, 4, 6, 11])), "SPEED_MIN": lo,
                                          "SPEED_MAX": lo + float(rng.choice([5, 10, 30, rng.uniform(1, 30)]))})
        sp = allowed_speeds(own)
        tag = "own speeds %s" % sp
        ask = None if n % 2 else float(rng.uniform(lo - 5, lo + 30))
        start = float(rng.uniform(lo - 3, lo + 30))
        v, err = call(lambda: own(env.road, env.vehicle.position, env.vehicle.heading, speed=start, target_speed=ask))
        if err is not None:
            lines.append({"k": "own", "tag": tag, "ok": False, "err": err})
            continue
        lines.append({"k": "own", "tag": tag, "ok": True, "err": "", "speeds": [fx(x, 1000) for x in sp], "asked": fx(ask or start, 1000),
                      "sidx": int(v.speed_index), "ts": fx(v.target_speed, 1000)})
        for t in range(5):
            v.speed = float(rng.choice([rng.uniform(lo - 5, lo + 35), sp[rng.randint(len(sp))]]))
            label = ["FASTER", "SLOWER", "IDLE"][rng.randint(3)]
            e = dict(facts(v, followed(v), tag), k="act", label=label, index=0, lon=True, lat=True)
            _, err = call(v.act, label)
            e.update({"t": state(v), "ok": err is None, "err": err or "", "others": True})
            lines.append(e)
        probe = [float(x) for x in np.concatenate([sp, rng.uniform(lo - 5, lo + 45, 8)])]
        others = [ControlledVehicle(env.road, [0, 0], 0, x, target_speed=float(rng.uniform(lo - 5, lo + 45))) for x in probe]
        got, err = call(lambda: {"got": [fx(v.index_to_speed(i), 1000) for i in range(len(sp))], "idx": [int(v.speed_to_index(x)) for x in probe],
                                 "default": [int(own.speed_to_index_default(x)) for x in probe],
                                 "others": [int(own.get_speed_index(o)) for o in others], "mine": int(own.get_speed_index(v)) - int(v.speed_index)})
        lines.append(dict(got or {}, k="index", tag=tag, ok=err is None, err=err or "", speeds=[fx(x, 1000) for x in sp], probe=[fx(x, 1000) for x in probe]))
    ctx.count("meta_actions", sum(l["k"] == "act" for l in lines))
    ctx.sample(lines[0])
    ctx.judge("MetaActionTrace", lines, ntraces=len(lines), timeout=800)
    ctx.require("available", "unavailable_is_idle", "index_to_speed", "speed_to_index", "others_untouched", "initial_target",
                *["effect_" + a for a in ("LANE_LEFT", "LANE_RIGHT", "IDLE", "FASTER", "SLOWER")])
