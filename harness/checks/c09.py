"""C09: copies and derived environments."""
import collections
import copy
import math

import numpy as np

from .. import histories as H, scenes as S, worlds as W
from ..core import fx, fxs, call
from .c10 import PRIVATE, ROOTS

LO = [.15, .15, 1., 5 - .07, 25 / 3 - 1.5]
HI = [.45, .45, 3., 5 + .07, 25 / 3 + 1.5]
PARAMS = ("ACCELERATION_PARAMETERS", "STEERING_PARAMETERS")
FIELDS = {"target_speed": 17., "speed": 3., "crashed": True, "TIME_WANTED": 2.2}


def rec(env, v, field=""):
    from highway_env.vehicle.behavior import IDMVehicle
    ctrl = [i for i, c in enumerate(env.controlled_vehicles) if c is v]
    lin = hasattr(v, PARAMS[0])
    skip = ["route", "LANE_CHANGE_MAX_BRAKING_IMPOSED"] + list(PARAMS)
    route = getattr(v, "route", None)
    st = {a: H.canon(getattr(v, a)) for a in H.VEHICLE if hasattr(v, a) and a not in skip and a != field}
    return {"ego": v is env.vehicle, "ctrl": ctrl[0] + 1 if ctrl else 0, "plain": not hasattr(v, "target_lane_index"), "idm": isinstance(v, IDMVehicle), "cls": type(v).__name__,
            "near": fx(math.hypot(*(v.position - env.vehicle.position)), 1000),
            "body": H.sha(H.canon([v.position, v.heading, v.speed])),
            "aim": H.sha(H.canon([getattr(v, "target_lane_index", 0), getattr(v, "target_speed", 0)])),
            "route": [[str(a), str(b), -1 if i is None else int(i)] for a, b, i in route or []],
            "lane": [str(v.lane_index[0]), str(v.lane_index[1])], "timer": fx(getattr(v, "timer", -1), 1e6), "brk": fx(getattr(v, "LANE_CHANGE_MAX_BRAKING_IMPOSED", 0), 1000),
            "params": fxs(list(v.ACCELERATION_PARAMETERS) + list(v.STEERING_PARAMETERS), 1000) if lin else [],
            "par_lo": fxs(LO, 1000) if lin else [], "par_hi": fxs(HI, 1000) if lin else [],
            "rest": H.sha(tuple(sorted((k, x) for k, x in st.items()))),
            "field": H.sha(H.canon(getattr(v, field))) if field and hasattr(v, field) else ""}


def vehicles(env, field=""):
    return [rec(env, v, field) for v in env.road.vehicles]


def things(env):
    """Everything mutable that can be reached from an environment (but for the means of display)."""
    seen, todo = {}, [env]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        own = type(x).__module__.startswith(("highway_env", "harness"))
        if isinstance(x, (list, set, dict, np.ndarray, np.random.RandomState, collections.deque)) or own and hasattr(x, "__dict__"):
            seen[id(x)] = x
        if isinstance(x, dict):
            todo += list(x.values())
        elif isinstance(x, (list, tuple, set, collections.deque)):
            todo += list(x)
        elif own and not isinstance(x, type) and hasattr(x, "__dict__"):
            todo += [v for k, v in vars(x).items() if k not in ("viewer", "automatic_rendering_callback")]
    return seen


def objects(env):
    return H.sha(tuple(H.vehicle_state(o, {}) for o in env.road.objects))


def run(ctx):
    ctx.model_check("MCHistories")
    ctx.model_check("MCPreprocess")
    rng = np.random.RandomState(ctx.seed + 900)
    # ---- effects
    lines = []
    cases = [("highway", {"vehicles_count": 12}), ("highway", {"vehicles_count": 9, "other_vehicles_type": "highway_env.vehicle.behavior.LinearVehicle"}),
             ("merge", {}), ("roundabout", {}), ("two-way", {}), ("intersection", {"other_vehicles_type": PRIVATE, "initial_vehicle_count": 6}),
             ("multi-intersection", {"other_vehicles_type": PRIVATE, "initial_vehicle_count": 5}),
             ("intersection", {"other_vehicles_type": "highway_env.vehicle.behavior.DefensiveVehicle", "initial_vehicle_count": 5}), ("summon", {})]
    for n in range(len(cases) * (2 if ctx.quick else 12)):
        kind, cfg = cases[n % len(cases)]
        env = S.scene_env(kind, dict(cfg, simulation_frequency=5), int(rng.randint(10 ** 6)))
        if n % 3 and kind in ("highway", "merge", "two-way", "roundabout"):
            S.perturb(env, rng, 260., lateral=False)
        for t in range(int(rng.randint(3))):
            env.step(W.sample_action(env, rng))
        tag = "%s #%d" % (kind, n)
        k = int(rng.randint(0, 4))
        lane = int(rng.randint(1, 3))
        if kind == "multi-intersection" and n % 2:
            env.controlled_vehicles = list(reversed(env.controlled_vehicles))
        for v in env.road.vehicles[:int(n % 4)]:        # who have just decided
            if hasattr(v, "timer"):
                v.timer = 0.
        if n % 3 == 0:              # crashed drivers, and things far away
            from highway_env.road.objects import Obstacle
            cars = [v for v in env.road.vehicles if v not in env.controlled_vehicles]
            for v in cars[:2]:
                v.crashed = True
            env.road.objects.append(Obstacle(env.road, env.vehicle.position + np.array([float(rng.choice([200, 400, 900])), 0.])))
        if len(env.controlled_vehicles) > 1 and n % 2 == 0:
            env.controlled_vehicles[-1].position = env.vehicle.position + np.array([float(rng.choice([-1, 1])) * 300., 0.])
            env.controlled_vehicles[-1].on_state_update()

        def emit(op, f, field="", **extra):
            before = H.sha((H.state(env)))
            orig = vehicles(env, field)
            out, err = call(f)
            e = dict({"op": op, "tag": "%s %s" % (tag, op), "ok": err is None, "err": err or "", "orig": orig, "got": [], "objects": True,
                      "shared": 0}, **extra)
            if err is None:
                e.update({"got": vehicles(out, field), "objects": objects(out) == objects(env), "shared": len(set(things(out)) & set(things(env)))})
                if H.sha(H.state(env)) != before:
                    e.update({"ok": False, "err": "the original environment changed"})
            lines.append(e)
        emit("copy", lambda: copy.deepcopy(env))
        emit("simplify", env.simplify)
        for cls in ("IDMVehicle", "LinearVehicle", "AggressiveVehicle"):
            emit("change", lambda: env.change_vehicles("highway_env.vehicle.behavior." + cls), cls=cls)
        emit("change", lambda: env.change_vehicles("highway_env.vehicle.controller.ControlledVehicle"), cls="ControlledVehicle")

        def estimated():            # vehicles whose states are estimated move also
            e2 = env.change_vehicles("highway_env.vehicle.uncertainty.prediction.IntervalVehicle")
            copy.deepcopy(e2).road.act()
            return e2
        emit("change", estimated, cls="IntervalVehicle")
        emit("lane", lambda: env.set_preferred_lane(lane), value=lane)
        e2 = copy.deepcopy(env)
        alts = []
        for v in e2.road.vehicles:
            if not hasattr(v, "set_route_at_intersection"):
                alts.append([])
                continue
            keep = v.route
            opts = []
            for j in range(4):
                v.route = copy.deepcopy(keep)
                v.set_route_at_intersection(j)
                opts.append(rec(e2, v)["route"])
            v.route = keep
            alts.append(opts)
        emit("route", lambda: env.set_route_at_intersection(k), alts=[[a[k]] if a else [] for a in alts])
        emit("route", lambda: env.set_route_at_intersection("random"), alts=alts)
        # a method of the vehicles: everyone who has it is replaced by what it returns
        e2 = copy.deepcopy(env)
        to = sorted(env.road.network.graph)[int(rng.randint(len(env.road.network.graph)))]
        for method, args in (("plan_route_to", (to,)), ("set_route_at_intersection_and_return", (k,))):
            def one(i):
                v = copy.deepcopy(e2).road.vehicles[i]
                got = v if not hasattr(v, method) else getattr(v, method)(*args)
                return rec(e2, got)
            if method == "plan_route_to":
                emit("call", lambda: env.call_vehicle_method((method, args)), alts=[[one(i)["route"]] for i in range(len(e2.road.vehicles))])
            else:
                emit("copy", lambda: env.call_vehicle_method((method, args)))
        for f, value in FIELDS.items():
            emit("field", lambda: env.set_vehicle_field((f, value)), field=f, value=H.sha(H.canon(value)))
        emit("random", env.randomize_behaviour)
    ctx.count("derived_environments", len(lines))
    ctx.sample({k: v for k, v in lines[1].items() if k not in ("orig", "got")})
    ctx.judge("PreprocessTrace", lines, ntraces=len(lines), timeout=600)
    # ---- isolation and equality of later behaviour
    gen = [g for g in ctx.generate("GenHistories", env={"LEN": "4"}) if any(o[0] == "copy" for o in g)]
    hist = []
    order = rng.permutation(len(gen))
    names = sorted(H.DERIVE)
    for n in range(44 if ctx.quick else 900):
        root = ROOTS[n % len(ROOTS)]
        seeds = [int(x) for x in rng.randint(0, 10 ** 6, 2)]
        ops = H.schedule_job(gen[order[n]], [root, root], seeds, 2)["ops"]
        # half way, a derived environment lives besides, and the same one is derived again from a copy
        if n % 2 and root[0] not in ("parking", "lane-keeping") and root[1].get("action", {}).get("type") != "ContinuousAction":
            # a preferred lane must exist on every road of the route
            some = [x for x in names if not (x == "lane1" and root[0] != "highway")]
            op = some[rng.randint(len(some))]
            ops += [["derive", 11, op, 1, None], ["copy", 12, "", 1, None], ["derive", 13, op, 12, None]]
            for t in (1, 2):
                ops += [["step", i, str(t), 0, None] for i in (1, 11, 12, 13)]
        ops += [["copy", 21, "", 1, None]] + [["step", i, str(t), 0, None] for t in (3, 4) for i in ((1, 21) if t == 3 else (21, 1))]
        ops += [["copy", 22, "", 1, None], ["tweak", 22, "tweak", 0, None], ["reset", 22, "", 0, None], ["step", 22, "5", 0, None]]
        ops += [["reset", 21, "", 0, None], ["step", 21, "1", 0, None], ["reset", 1, "", 0, None], ["step", 1, "1", 0, None]]
        r = H.run_job({"ops": ops}, "%s #%d" % (root[0], n), None)
        hist += r
    ctx.count("operations", len(hist))
    ctx.judge("HistoriesTrace", hist, ntraces=44 if ctx.quick else 900, timeout=850)
    ctx.require("copy_equal", "simplify", "change_vehicles", "preferred_lane", "route_at_intersection", "vehicle_field", "randomize",
                "nothing_shared", "reproduced_by_copy", "reproduced_by_step", "reproduced_by_derive", "undisturbed_by_step", "undisturbed_by_copy",
                "undisturbed_by_derive", "undisturbed_by_tweak", "reproduced_by_reset")
