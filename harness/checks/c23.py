"""C23: images show the present state of an environment, and rendering leaves it alone."""
import copy
import math
import os
import pathlib
import shutil
import tempfile

import numpy as np

from .. import histories as H, scenes as S, worlds as W
from ..core import fx, call

PRIVATE = "harness.vehicles.PrivateVehicle"
CASES = [("highway", {}), ("highway", {"lanes_count": 2, "vehicles_count": 8, "initial_lane_id": 1, "action": {"type": "ContinuousAction"}}), ("merge", {}),
         ("roundabout", {}), ("two-way", {}), ("intersection", {"other_vehicles_type": PRIVATE}),
         ("multi-intersection", {"other_vehicles_type": PRIVATE}), ("parking", {}), ("summon", {}), ("lane-keeping", {})]
KEYS = {"o": "K_o", "l": "K_l", "m": "K_m", "k": "K_k", "left": "K_LEFT", "right": "K_RIGHT", "up": "K_UP", "down": "K_DOWN", "x": "K_x"}


def key_event(key, down=True):
    import pygame
    return pygame.event.Event(pygame.KEYDOWN if down else pygame.KEYUP, key=getattr(pygame, KEYS[key]))


def dot(a, w):
    return np.dot(a, w)


def thing(o):
    from highway_env.road.objects import Obstacle, Landmark
    from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle
    from highway_env.vehicle.controller import MDPVehicle
    from highway_env.vehicle.dynamics import BicycleVehicle
    from highway_env.vehicle.kinematics import Vehicle
    what = "landmark" if isinstance(o, Landmark) else "obstacle" if isinstance(o, Obstacle) else "linear" if isinstance(o, LinearVehicle) else \
        "idm" if isinstance(o, IDMVehicle) else "mdp" if isinstance(o, MDPVehicle) else "vehicle"
    return {"x": fx(o.position[0], 100), "y": fx(o.position[1], 100), "c": fx(math.cos(o.heading), 1e4), "s": fx(math.sin(o.heading), 1e4),
            "length": fx(o.LENGTH, 100), "width": fx(o.WIDTH, 100), "what": what, "hit": bool(o.hit if what in ("landmark", "obstacle") else o.crashed),
            "paint": [int(x) for x in getattr(o, "color", None) or ()],
            "wheels": type(o) in (Vehicle, BicycleVehicle)}


class Look:
    """The camera, as the configuration and the keys would have it."""

    def __init__(self, env):
        c = env.config
        self.w, self.h = c["screen_width"], c["screen_height"]
        self.scale = float(c.get("scaling", 5.5))
        self.c = list(map(float, c.get("centering_position", [.5, .5])))
        self.event = {"k": "open", "ok": True, "w": int(self.w), "h": int(self.h), "scale": fx(self.scale, 1e3), "cx": fx(self.c[0], 100), "cy": fx(self.c[1], 100)}

    def press(self, key):
        self.scale *= {"o": 1.3, "l": 1 / 1.3}.get(key, 1)
        self.c[0] += {"m": -.1, "k": .1}.get(key, 0)
        return {"k": "press", "ok": True, "key": key}

    def pixel(self, focus, p):
        return [int(round((p[0] - focus[0]) * self.scale + self.c[0] * self.w)), int(round((p[1] - focus[1]) * self.scale + self.c[1] * self.h))]

    def world(self, focus, px):
        return np.array([(px[0] + .5 - self.c[0] * self.w) / self.scale + focus[0], (px[1] + .5 - self.c[1] * self.h) / self.scale + focus[1]])


def lanes_of(env):
    from highway_env.road.lane import CircularLane, SineLane, LineType
    names = {LineType.NONE: "none", LineType.STRIPED: "striped", LineType.CONTINUOUS: "curve", LineType.CONTINUOUS_LINE: "line"}
    out = []
    for a in env.road.network.graph:
        for b in env.road.network.graph[a]:
            for l in env.road.network.graph[a][b]:
                bend = 3.2 / l.radius if isinstance(l, CircularLane) else 3.2 * abs(l.amplitude) * l.pulsation ** 2 if isinstance(l, SineLane) else 0
                for side in range(2):
                    kind = names[l.line_types[side]]
                    if kind != "none":
                        out.append((l, side, kind, 50. if kind == "line" and bend else bend))
    return out


def near(lines, p, reach):
    out = []
    for l, side, kind, bend in lines:
        s, lat = l.local_coordinates(p)
        if -2 < s < l.length + 2:
            d = abs(lat - (side - .5) * l.width_at(s))
            if d < reach + bend:
                out.append({"kind": kind, "s": fx(s, 100), "d": fx(d, 100), "length": fx(l.length, 100), "bend": fx(bend, 100)})
    return out


def sampled(env, look, image, focus, things, rng, count=30):
    lines = lanes_of(env)
    points = [look.pixel(focus, focus)]
    for o in things:
        x, y = look.pixel(focus, o.position)
        points.append([x, y])
        if -60 < x < look.w + 60 and -60 < y < look.h + 60:         # what is the closest to it in the window
            points.append([min(max(x, 3), look.w - 4), min(max(y, 3), look.h - 4)])
        if abs(math.sin(o.heading)) < .13:      # its corners tell a small angle
            c, s = math.cos(o.heading), math.sin(o.heading)
            for a, b in ((.42, .32), (.42, -.32), (-.42, .32), (-.42, -.32)):
                points.append(look.pixel(focus, o.position + [a * o.LENGTH * c - b * o.WIDTH * s, a * o.LENGTH * s + b * o.WIDTH * c]))
        if np.linalg.norm(o.position - focus) < 70:
            c, s = math.cos(o.heading), math.sin(o.heading)
            for _ in range(3):
                a, b = rng.choice([-.6, -.35, .35, .6, .75, -.75, .85, -.85]) * o.LENGTH / 2, rng.choice([-.3, 0, .3]) * o.WIDTH
                points.append(look.pixel(focus, o.position + [a * c - b * s, a * s + b * c]))
    for _ in range(count):
        points.append([int(rng.randint(look.w)), int(rng.randint(look.h))])
    for _ in range(count):
        if not lines:
            break
        l, side, kind, bend = lines[rng.randint(len(lines))]
        s0 = l.local_coordinates(focus)[0]
        s = np.clip(s0 + rng.uniform(-60, 60), 0, l.length)
        points.append(look.pixel(focus, l.position(s, (side - .5) * l.width_at(s))))
    out = []
    for x, y in points:
        if 3 <= x < look.w - 3 and 3 <= y < look.h - 3:
            box = image[y - 3:y + 4, x - 3:x + 4].reshape(-1, 3)
            out.append({"p": [100 * x + 50, 100 * y + 50], "rgb": image[y, x].astype(int).tolist(), "white": bool((box == 255).all(axis=1).any()),
                        "lines": near(lines, look.world(focus, (x, y)), 6 / look.scale)})
    return out


def picture(env, look, rng, tag, trail=None, take=None):
    before = H.state(env)
    image, err = call(take or (lambda: env.render("rgb_array")))
    after = H.state(env)
    e = {"k": "image", "ok": err is None, "err": err or "", "tag": tag, "before": H.sha(before), "after": H.sha(after)}
    if err is None:
        image = np.array(image)
        focus = np.array(env.vehicle.position if env.vehicle else [0, 0], float)
        shown = [o for o in list(env.road.objects) + list(env.road.vehicles) if np.linalg.norm(o.position - focus) < 3000]
        ghosts = []
        for v in env.road.vehicles if trail is not None else ():
            f = env.config["simulation_frequency"]
            ghosts += trail.get(id(v), [])[::-1][:30][:int(2 * f):max(int(f / 3), 1)]         # three per second of the last two
        shape = list(image.shape)
        e.update(shape=shape, focus=[fx(z, 100) for z in focus], things=[thing(o) for o in shown], ghosts=ghosts,
                 samples=sampled(env, look, image, focus, shown, rng) if shape == [look.h, look.w, 3] else [])
    return e


def furnish(env, rng):
    """Vehicles of all kinds, obstacles and landmarks around the agent, some of them hit."""
    from highway_env.road.objects import Obstacle, Landmark
    from highway_env.vehicle import behavior, controller, kinematics
    ego = env.controlled_vehicles[0] if env.controlled_vehicles else None
    at = ego.position if ego is not None else np.zeros(2)
    for k in range(rng.randint(2, 9)):
        kind = [Obstacle, Landmark, kinematics.Vehicle, controller.ControlledVehicle, controller.MDPVehicle, behavior.IDMVehicle, behavior.LinearVehicle,
                behavior.AggressiveVehicle, behavior.DefensiveVehicle][rng.randint(9)]
        p = at + rng.uniform(-1, 1, 2) * [40, 12]
        if rng.rand() < .3:     # half of it out of the window
            look = Look(env)
            e = [rng.uniform(0, 1), rng.choice([0., 1.])]
            p = look.world(at, np.array([look.w, look.h]) * (e if rng.randint(2) else e[::-1])) + rng.uniform(-2.2, 2.2, 2)
        o = kind(env.road, p, rng.uniform(-np.pi, np.pi) if rng.rand() < .7 else rng.uniform(-.12, .12), rng.uniform(0, 20))
        if rng.rand() < (.2 if abs(o.heading) > .12 else .6):
            o.LENGTH = 12.
        if rng.rand() < .2 and env.road.objects:
            o.position = env.road.objects[rng.randint(len(env.road.objects))].position + rng.uniform(-.5, .5, 2)
        if isinstance(o, (Obstacle, Landmark)):
            o.hit = bool(rng.randint(2))
            env.road.objects.append(o)
        else:
            o.crashed = bool(rng.rand() < .3)
            if rng.rand() < .2:
                o.color = (int(rng.randint(256)), int(rng.randint(256)), 40)
            env.road.vehicles.append(o)
    for v in env.road.vehicles:
        if rng.rand() < .1:
            v.crashed = True


def tour(env, rng, tag, lines, n):
    look = Look(env)
    lines.append(look.event)
    trail = None
    if env.config["show_trajectories"]:
        trail = {}
    def follow(env):
        """Where every vehicle is after every frame."""
        if trail is None:
            return
        road, real = env.road, env.road.step

        def step(dt, *a, **k):
            out = real(dt, *a, **k)
            for v in road.vehicles:
                trail.setdefault(id(v), []).append(thing(v))
            return out
        road.step = step
    follow(env)
    for _ in range(31 if trail is not None else 0):     # trails of frames before these are gone then
        env.road.act()
        env.road.step(1 / env.config["simulation_frequency"])

    def quiet():
        before = H.sha(H.state(env))
        r, err = call(env.render, "human")
        lines.append({"k": "quiet", "ok": err is None, "err": err or "", "tag": tag, "before": before, "after": H.sha(H.state(env)), "returned": str(r)})
    for t in range(n):
        what = rng.randint(9)
        if what < 4 and not env.done:
            call(env.step, W.sample_action(env, rng))
        elif what == 4:
            quiet()
        elif what == 5 and trail is None:
            if env.viewer is not None and rng.rand() < .5:
                quiet()                 # an image that is drawn already
            env = copy.deepcopy(env)
            look = Look(env)
            lines.append(look.event)
        elif what == 6 and trail is None:
            env.close()
            if rng.rand() < .5:
                env.reset()
            look = Look(env)
            lines.append(look.event)
        elif what == 7 and env.viewer is not None:
            key = ["o", "l", "m", "k", "x"][rng.randint(5)]
            if .3 < look.scale / 5.5 < 3 or key in "mkx":
                before = H.sha(H.state(env))
                _, err = call(env.viewer.sim_surface.handle_event, key_event(key))
                lines.append(dict(look.press(key), ok=err is None, err=err or "", tag=tag, before=before, after=H.sha(H.state(env))))
                env.should_update_rendering = True      # a window is drawn again with the next frame only
        elif what == 8 and trail is None:
            furnish(env, rng)
            env.should_update_rendering = True
        if rng.rand() < .3:
            quiet()
        lines.append(picture(env, look, rng, "%s t=%d" % (tag, t), trail))
    env.close()


def twin(kind, cfg, seed, lines):
    """The same episode with and without images."""
    out = []
    for shown in (False, True):
        env = W.cls(kind)(dict(cfg))
        env.seed(seed)
        env.reset()
        rng = np.random.RandomState(seed)
        log, err = [], None
        for episode in range(2):            # the second one with a window open since before
            for t in range(6):
                if shown:
                    _, err = call(env.render, ["rgb_array", "human"][t % 2])
                    if t == 3 and episode == 0:
                        env.close()
                        env.done = False
                if err is None:
                    r, err = call(env.step, W.sample_action(env, rng))
                log += [H.sha(H.state(env)), H.sha(H.canon(r[0]))] if err is None else [err]
                if err is not None or r[2]:
                    break
            if err is None and episode == 0:
                if shown:
                    _, err = call(env.render, "rgb_array")
                if err is None:
                    r, err = call(env.reset)
                log.append(H.sha(H.canon(r)) if err is None else err)
            if err is not None:
                break
        env.close()
        out.append(log)
    lines.append({"k": "twin", "ok": True, "err": "", "tag": "%s twin" % kind, "alone": out[0], "rendered": out[1]})


def greys(rng, seed, lines):
    w, h = [(84, 84), (128, 64), (60, 90)][rng.randint(3)]
    stack = int(rng.choice([1, 2, 4]))
    weights = [[.2989, .587, .114], [1., 0., 0.], [.25, .5, .25]][rng.randint(3)]
    kind, cfg = [CASES[i] for i in (0, 2, 3, 5)][rng.randint(4)]
    cfg = dict(cfg, offscreen_rendering=True, screen_width=w, screen_height=h, scaling=float(rng.choice([1.75, 3, 5.5])), duration=6,
               observation={"type": "GrayscaleObservation", "weights": weights, "stack_size": stack, "observation_shape": (w, h)})
    env = W.cls(kind)(cfg)
    env.seed(seed)
    at = None
    held = []
    obs, err = call(env.reset)
    fresh = True
    for t in range(8):
        e = {"k": "grey", "ok": err is None, "err": err or "", "tag": "%s grey %d" % (kind, t), "want": [w, h, stack], "fresh": fresh, "weights": [fx(x, 1e4) for x in weights]}
        if err is None:
            if at is None:          # fixed pixels, some of which things go through
                at = [[int(rng.randint(w)), int(rng.randint(h))] for _ in range(20)] + [
                    [int(np.clip(w * .3 + rng.randint(-9, 30), 0, w - 1)), int(np.clip(h * .5 + rng.randint(-9, 9), 0, h - 1))] for _ in range(12)]
            e["shape"] = list(np.shape(obs))
            image = np.array(env.render("rgb_array"))
            e["now"] = [image[y, x].astype(int).tolist() for x, y in at] if image.shape == (h, w, 3) else []
            e["layers"] = [[fx(z, 1e2) for z in obs[x, y]] for x, y in at] if e["shape"] == [w, h, stack] else []
            held.append((obs, np.array(obs)))
            e["kept"] = all(np.array_equal(a, b) for a, b in held)
        lines.append(e)
        if err is not None:
            break
        fresh = t in (2, 5)
        if fresh:
            obs, err = call(env.reset)
        else:
            r, err = call(env.step, W.sample_action(env, rng))
            obs = r[0] if err is None else None
    env.close()


def driving(rng, lines):
    from highway_env.envs.common.graphics import EventHandler
    for space, lat, lon in [("ContinuousAction", True, True), ("ContinuousAction", True, False), ("ContinuousAction", False, True),
                            ("DiscreteMetaAction", True, True), ("DiscreteMetaAction", True, False), ("DiscreteMetaAction", False, True)]:
        env = W.make("highway", {"vehicles_count": 2, "action": {"type": space, "lateral": lat, "longitudinal": lon}}, int(rng.randint(1000)))
        at = env.action_type
        given = []
        real = at.act

        def act(a):
            given.append(np.copy(a))
            return real(a)
        at.act = act
        first = [fx(x, 100) for x in np.ravel(at.last_action)] if space[0] == "C" else []
        lines.append({"k": "order", "ok": True, "key": "x", "down": True, "got": "none", "lateral": lat, "longitudinal": lon, "last": first})
        held = [(k, d) for a, b in (("left", "right"), ("up", "down")) for k, d in ((a, 1), (b, 1), (a, 0), (b, 0), (b, 1), (a, 1), (b, 0), (a, 0))]
        for key, down in held + [(["left", "right", "up", "down", "x"][rng.randint(5)], rng.rand() < .6) for _ in range(25)]:
            down = bool(down)
            del given[:]
            _, err = call(EventHandler.handle_event, at, key_event(key, down))
            e = {"ok": err is None, "err": err or "", "key": key, "down": down, "lateral": lat, "longitudinal": lon, "tag": "%s %s %s" % (space, lat, lon)}
            if space[0] == "C":
                e.update(k="pedal", got=[fx(x, 100) for x in np.ravel(at.last_action)])
            else:
                names = [at.actions[int(a)] for a in given]
                e.update(k="order", got=names[0] if len(names) == 1 else "none" if not names else "many", last=[])
            lines.append(e)


def plans(rng, lines):
    """A sequence of actions to be displayed: the frames that the agent would go through, and an environment left alone."""
    for kind, cfg in (CASES[0], CASES[2], CASES[5], (CASES[0][0], dict(CASES[0][1], simulation_frequency=4, policy_frequency=2)),
                      (CASES[0][0], dict(CASES[0][1], simulation_frequency=8, policy_frequency=4))):
        env = W.make(kind, dict(cfg, offscreen_rendering=True), int(rng.randint(1000)))
        env.render("rgb_array")
        before = H.sha(H.state(env))
        n = env.action_space.n
        plan = [int(rng.randint(n)) for _ in range(3)]
        _, err = call(env.viewer.set_agent_action_sequence, plan)
        e = {"k": "plan", "ok": err is None, "err": err or "", "tag": "plan " + kind, "before": before, "after": H.sha(H.state(env)), "frames": [], "want": []}
        if err is None:
            def facts(v):
                return [fx(v.position[0], 1e3), fx(v.position[1], 1e3), fx(v.heading, 1e4), fx(v.speed, 1e3)]
            e["frames"] = [facts(v) for v in env.viewer.vehicle_trajectory]
            me = copy.deepcopy(env.vehicle)
            f, every = env.config["simulation_frequency"], 0
            for a in plan:
                me.act(env.action_type.actions[a])
                for _ in range(int(f / env.config["policy_frequency"])):
                    me.act()
                    me.step(1 / f)
                    every += 1
                    if every % max(int(f / env.config["policy_frequency"] / 3), 1) == 0:
                        e["want"].append(facts(me))
        lines.append(e)
        env.close()


def saved(rng, lines):
    import pygame
    where = pathlib.Path(tempfile.mkdtemp(prefix="c23-"))
    try:
        env = W.make("merge", {"offscreen_rendering": True}, int(rng.randint(1000)))
        env.render("rgb_array")
        env.viewer.SAVE_IMAGES, env.viewer.directory = True, where
        images, err = [], None
        for t in range(3):
            if err is None:
                call(env.step, 1)
                _, err = call(env.viewer.display)
                if err is None:
                    images.append(np.array(env.viewer.get_image()))
        files = sorted((p.name for p in where.iterdir()), key=lambda x: (len(x), x))
        kept = [np.moveaxis(pygame.surfarray.array3d(pygame.image.load(str(where / f))), 0, 1) for f in files]
        got = env.viewer.frame
        lines.append({"k": "saved", "ok": err is None, "err": err or "", "tag": "saved", "files": len(files), "want": got if got >= 3 else 3,
                      "same": len(kept) >= 3 and any(np.array_equal(kept[-1], i) for i in images[-1:])})
        env.close()
    finally:
        shutil.rmtree(str(where))


def windows(rng, seed, lines):
    """Environments drawn in windows or offscreen, together and one after the other, and closed at different times."""
    kinds = [["highway", "merge", "roundabout", "parking", "two-way"][rng.randint(5)] for _ in range(3)]
    cfgs = [dict({"highway": {"vehicles_count": 4}}.get(k, {}), screen_width=300, screen_height=150, offscreen_rendering=bool(rng.randint(2)), duration=30) for k in kinds]
    ops = [(int(rng.randint(3)), ["step", "step", "render", "render", "human", "reset", "close"][rng.randint(7)], int(rng.randint(1000))) for _ in range(24)]
    ops[12] = (ops[12][0], "close", 0)

    def play(which):
        envs = {i: W.make(kinds[i], dict(cfgs[i]), seed + i) for i in which}
        log = {i: [] for i in which}
        for i, op, n in ops:
            if i not in which:
                continue
            env = envs[i]
            if op == "step" and not env.done:
                _, err = call(env.step, W.sample_action(env, np.random.RandomState(n)))
            elif op in ("render", "human"):
                if env.viewer is None:
                    _, err = call(env.render, "human")      # opens
                    if err is None:
                        env.viewer.enabled = True           # draw although there is no display
                        env.should_update_rendering = True
                x, err = call(env.render, "rgb_array" if op == "render" else "human")
                if err is None and x is not None:
                    log[i].append(H.sha(np.asarray(x).tobytes().hex()))
            elif op == "reset":
                _, err = call(env.reset)
            elif op == "close":
                _, err = call(env.close)
            else:
                err = None
            if err is not None:
                log[i].append("%s: %s" % (op, err))
        for e in envs.values():
            e.close()
        return log
    together = play([0, 1, 2])
    for i in range(3):
        lines.append({"k": "windows", "ok": True, "err": "", "tag": "windows %s %s" % (kinds[i], [o for j, o, _ in ops if j == i]), "alone": play([i])[i], "together": together[i]})


def agents(rng, lines):
    """An agent that displays things next to the road, or on it, in windows and offscreen."""
    import pygame
    for n in range(8):
        w, h = [(300, 150), (160, 240), (200, 200)][rng.randint(3)]
        off, shown = n % 4 == 0, n % 3 > 0
        kind = ["highway", "merge", "parking"][n % 3]
        env = W.make(kind, dict({"highway": {"vehicles_count": 4}}.get(kind, {}), screen_width=w, screen_height=h, offscreen_rendering=off, render_agent=shown,
                                duration=30), int(rng.randint(1000)))
        calls = []
        colours = [[int(x) for x in rng.randint(1, 255, 3)] for _ in range(2)]
        spot = [int(rng.randint(w - 12)), int(rng.randint(h - 12))]

        def draw(agent, sim):
            calls.append(list(agent.get_size()) + list(sim.get_size()))
            agent.fill(colours[0])
            pygame.draw.rect(sim, colours[1], (spot[0], spot[1], 9, 9))

        def opened():
            env.render("human")
            env.viewer.enabled = True
            env.viewer.set_agent_display(draw)
            if n % 2:
                env.viewer.set_agent_display(draw)      # again: the same window
        _, err = call(opened)
        for t in range(3):
            del calls[:]

            def images():
                env.should_update_rendering = True
                env.render("human")
                return np.array(env.render("rgb_array"))
            image, err = call(images) if err is None else (None, err)
            e = {"k": "agent", "ok": err is None, "err": err or "", "tag": "agent %s %d" % (kind, n), "w": w, "h": h, "offscreen": off, "shown": shown,
                 "calls": calls[:], "colour": colours[0], "spotted": colours[1], "shape": [], "second": [], "spot": []}
            if err is None:
                e["shape"] = list(image.shape)
                look = Look(env)
                clear = all(np.abs(np.array(look.pixel(env.vehicle.position, v.position)) - spot).max() > 50 for v in env.road.vehicles)
                e["spot"] = [image[spot[1] + 4, spot[0] + 4].astype(int).tolist()] if clear else []
                if list(image.shape) == [2 * h, w, 3]:
                    e["second"] = [image[h + int(rng.randint(h)), int(rng.randint(w))].astype(int).tolist() for _ in range(5)]
                elif list(image.shape) == [h, 2 * w, 3]:
                    e["second"] = [image[int(rng.randint(h)), w + int(rng.randint(w))].astype(int).tolist() for _ in range(5)]
            lines.append(e)
            call(env.step, W.sample_action(env, rng))
        call(env.close)


def posted(rng, lines):
    """Keys that are pressed and windows that are closed by their users, while images are drawn or an episode goes on."""
    import pygame
    for n in range(10):
        kind = ["highway", "merge", "roundabout"][n % 3]
        env = W.make(kind, dict({"highway": {"vehicles_count": 3}}.get(kind, {}), screen_width=300, screen_height=150, duration=30), int(rng.randint(1000)))
        mode = ["human", "rgb_array"][n % 2]
        _, err = call(env.render, mode)
        if err is None:
            env.viewer.enabled = n % 4 > 1
        given, at = [], env.action_type
        real = at.act

        def act(a):
            given.append(int(a))
            return real(a)
        at.act = act
        for t in range(6):
            keys = [["left", "right", "up", "down", "x", "o"][rng.randint(6)] for _ in range(rng.randint(3))]
            quits = t == 4
            del given[:]

            def go():
                for k in keys:
                    pygame.event.post(key_event(k))
                if quits:
                    pygame.event.post(pygame.event.Event(pygame.QUIT))
                if n < 4 or not quits:
                    env.should_update_rendering = True
                    r = env.render(mode)
                else:               # in the middle of a step
                    r = env.step(1)
                return r
            ended = bool(env.done)
            r, err = call(go) if err is None else (None, err)
            took = [at.actions[a] for a in given]
            e = {"k": "posted", "ok": err is None, "err": err or "", "tag": "posted %s %d %d %s" % (kind, n, t, mode), "keys": keys, "quit": quits,
                 "took": took[1:] if n >= 4 and quits else took, "open": env.viewer is not None, "ended": bool(env.done) and not ended,
                 "shape": list(np.shape(r)) if mode == "rgb_array" and (n < 4 or not quits) and err is None else []}
            lines.append(e)
            if quits:
                break
        call(env.close)


def run(ctx):
    ctx.model_check("MCRendering")
    lines = []
    rng = np.random.RandomState(ctx.seed + 23)
    os.environ["SDL_VIDEODRIVER"] = "dummy"
    for n in range(4 if ctx.quick else 40):
        windows(rng, int(rng.randint(10 ** 6)), lines)
        agents(rng, lines)
        posted(rng, lines)
    os.environ.pop("SDL_VIDEODRIVER", None)             # without a display, images are drawn only when no driver is named
    os.environ.setdefault("XDG_RUNTIME_DIR", tempfile.gettempdir())
    rng = np.random.RandomState(ctx.seed + 2300)
    big = 1 if ctx.quick else 6
    for r in range(2 * big):
        for kind, cfg in CASES:
            cfg = dict(cfg, offscreen_rendering=True)
            if rng.rand() < .5:
                cfg.update(screen_width=int(rng.choice([300, 420, 600])), screen_height=int(rng.choice([150, 300, 600])))
            if rng.rand() < .4:
                cfg.update(scaling=float(rng.choice([5.5, 8, 10, 14])), centering_position=[[.5, .5], [.3, .5], [.5, .7]][rng.randint(3)])
            if (r + len(kind)) % 2:
                cfg["show_trajectories"] = True
                if kind not in ("parking", "summon", "lane-keeping") and rng.rand() < .5:
                    cfg["simulation_frequency"] = int(rng.choice([2, 5, 7, 30]))
            env = W.make(kind, cfg, int(rng.randint(10 ** 6)))
            tour(env, rng, "%s %d" % (kind, r), lines, 10)
    for kind, cfg in CASES:
        for _ in range(big):
            twin(kind, dict(cfg, offscreen_rendering=True), int(rng.randint(10 ** 6)), lines)
    lines.append({"k": "order", "ok": True, "key": "x", "down": True, "got": "none", "lateral": True, "longitudinal": True, "last": []})
    for _ in range(6 * big):
        greys(rng, int(rng.randint(10 ** 6)), lines)
    for _ in range(big):
        driving(rng, lines)
        plans(rng, lines)
        saved(rng, lines)
    ctx.count("images", sum(e["k"] == "image" for e in lines))
    ctx.count("pixels", sum(len(e.get("samples", [])) for e in lines))
    ctx.sample({k: v for k, v in lines[1].items() if k != "samples"})
    ctx.judge("RenderingTrace", lines, ntraces=len(CASES) * 2 * big, timeout=800)
    ctx.require("shape", "unchanged", "colour_idm", "colour_mdp", "colour_vehicle", "road_or_ground", "no_mark", "mark", "same_without_rendering", "grey_last",
                "pedal", "order", "agent_beside", "agent_on_road", "keys_drive", "window_closed")
