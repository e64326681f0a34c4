"""C22: continuous control and manual control."""
import math

import numpy as np

from .. import worlds as W, scenes as S
from ..core import fx, call

KEYS = ["up", "down", "left", "right", "space"]


def run(ctx):
    import pygame
    from highway_env.envs.common.graphics import EventHandler
    ctx.model_check("MCControl")
    rng = np.random.RandomState(ctx.seed + 2200)
    codes = {"up": pygame.K_UP, "down": pygame.K_DOWN, "left": pygame.K_LEFT, "right": pygame.K_RIGHT, "space": pygame.K_SPACE}
    lines = []
    cases = []
    for n in range(40 if ctx.quick else 400):
        a = {"type": "ContinuousAction"}
        ax = [(True, True), (True, False), (False, True)][n % 3]
        a["longitudinal"], a["lateral"] = ax
        if rng.rand() < .4:
            a["acceleration_range"] = [float(-rng.randint(1, 8)), float(rng.randint(1, 12))]
        if rng.rand() < .4:
            a["steering_range"] = [-float(rng.uniform(.1, 1)), float(rng.uniform(.1, 1))]
        kind = ["highway", "parking", "lane-keeping", "summon"][n % 4] if n % 5 else "parking"
        # the lane keeping task reads the state of a bicycle vehicle, and supports nothing else
        if rng.rand() < .3 or kind == "lane-keeping":
            a["dynamical"] = True
        if rng.rand() < .3:
            a["clip"] = False
        cases.append((kind, a, 1 + int(n % 7 == 3)))
    for kind, a, agents in cases:
        cfg = {"action": a}
        if kind == "highway":
            cfg["vehicles_count"] = 2
            cfg["observation"] = {"type": "Kinematics"}
        if agents > 1:
            kind = "parking"
            cfg = {"controlled_vehicles": agents, "action": {"type": "MultiAgentAction", "action_config": a}}
        env = W.cls(kind)(cfg)
        env.seed(int(rng.randint(10 ** 6)))
        env.reset()
        d = {"lon": a["longitudinal"], "lat": a["lateral"], "clip": a.get("clip", True),
             "acc": [fx(x, 1e4) for x in a.get("acceleration_range", [-5, 5])],
             "steer": [fx(x, 1e4) for x in a.get("steering_range", [-math.pi / 4, math.pi / 4])]}
        size = 2 if d["lon"] and d["lat"] else 1
        tag = "%s %s x%d" % (kind, a, agents)
        lines.append({"k": "begin", "tag": tag, "agents": agents, "size": size, "dynamical": bool(a.get("dynamical")),
                      "class": type(env.vehicle).__name__})

        def got(v):
            return {"acceleration": fx(v.action["acceleration"], 1e4), "steering": fx(v.action["steering"], 1e4)}
        for t in range(12 if ctx.quick else 30):
            if agents > 1:
                us = [rng.uniform(-1.4, 1.4, size) for _ in range(agents)]
                _, err = call(env.action_type.act, tuple(np.array(u) for u in us))
                for i, u in enumerate(us):
                    lines.append({"k": "act", "tag": tag, "agent": i + 1, "cfg": d, "u": [fx(x, 1e4) for x in u], "ok": err is None,
                                  "err": err or "", "got": got(env.controlled_vehicles[i])})
                continue
            if rng.rand() < .5:
                u = rng.choice([-1., 0., 1., .5], size) if rng.rand() < .3 else rng.uniform(-1.6, 1.6, size)
                _, err = call(env.action_type.act, np.array(u))
                lines.append({"k": "act", "tag": tag, "agent": 1, "cfg": d, "u": [fx(x, 1e4) for x in u], "ok": err is None,
                              "err": err or "", "got": got(env.vehicle)})
            else:
                key, down = KEYS[rng.randint(5)], bool(rng.randint(2))
                ev = pygame.event.Event(pygame.KEYDOWN if down else pygame.KEYUP, key=codes[key])
                _, err = call(EventHandler.handle_event, env.action_type, ev)
                lines.append({"k": "key", "tag": tag, "agent": 1, "cfg": d, "key": key, "down": down, "ok": err is None,
                              "err": err or "", "got": got(env.vehicle)})
    # keys and meta-actions
    for lon, lat in [(True, True), (True, False), (False, True)]:
        env = W.cls("highway")({"vehicles_count": 2, "action": {"type": "DiscreteMetaAction", "longitudinal": lon, "lateral": lat}})
        for key in KEYS:
            for down in (True, False):
                acts = []
                v = env.vehicle
                v.act = lambda a=None: acts.append(str(a))
                _, err = call(EventHandler.handle_event, env.action_type,
                              pygame.event.Event(pygame.KEYDOWN if down else pygame.KEYUP, key=codes[key]))
                del v.act
                lines.append({"k": "metakey", "lon": lon, "lat": lat, "key": key, "down": down, "acts": acts, "ok": err is None,
                              "err": err or "", "tag": "meta"})
    ctx.count("actions", sum(l["k"] == "act" for l in lines))
    ctx.count("key_events", sum(l["k"] in ("key", "metakey") for l in lines))
    ctx.sample(lines[1])
    ctx.judge("ControlTrace", lines, ntraces=len(cases), timeout=600)
    ctx.require("commands_both", "commands_longitudinal", "commands_lateral", "keys_both", "keys_longitudinal", "keys_lateral",
                "meta_both", "meta_longitudinal", "meta_lateral", "vehicle_class")
