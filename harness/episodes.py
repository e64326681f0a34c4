"""Recorded episodes of every environment: one event per reset, decision step or closing."""
import numpy as np

from . import worlds as W
from .core import fx, fxs, call, clampint


def facts(env, kind):
    """The facts of a state that decide whether it is terminal."""
    cv = env.controlled_vehicles
    t = W.task(kind)
    f = {"crashed": [bool(v.crashed) for v in cv], "x": fx(cv[0].position[0], 1000), "y": fx(cv[0].position[1], 1000)}
    if t == "intersection":
        f["agents"] = [{"from": str(v.lane_index[0]), "to": str(v.lane_index[1]), "p": W.pos_mm(v)} for v in cv]
    if t in ("parking", "summon"):
        g = env.goal
        f["goal"] = [[abs(fx(v.position[0] - g.position[0], 1000)), abs(fx(v.position[1] - g.position[1], 1000)),
                      abs(fx(np.cos(v.heading) - np.cos(g.heading), 1e6)),
                      abs(fx(np.sin(v.heading) - np.sin(g.heading), 1e6))] for v in cv]
    return f


def reward_facts(env, kind):
    cv = env.controlled_vehicles
    ego = cv[0]
    net = env.road.network
    r = {"speed": fx(ego.speed, 1000), "lane": int(ego.lane_index[2]),
         "tlane": int(getattr(ego, "target_lane_index", ego.lane_index)[2]),
         "nlanes": len(net.graph[ego.lane_index[0]][ego.lane_index[1]]),
         "sidx": [int(getattr(v, "speed_index", -1)) for v in cv],
         "scount": [int(getattr(v, "SPEED_COUNT", 0)) for v in cv]}
    if kind == "merge":
        r["ramp"] = [[fx(v.target_speed, 1000), fx(v.speed, 1000)] for v in env.road.vehicles
                     if tuple(v.lane_index) == ("b", "c", 2) and hasattr(v, "target_speed")]
    if kind == "lane-keeping":
        import math
        # the two lanes of the task, straight then sinusoidal, in the harness' own geometry
        x, y = float(ego.position[0]), float(ego.position[1])
        d = (65 / math.hypot(65, 35), -35 / math.hypot(65, 35))
        r["lat_straight"] = fx(-(x - 50) * d[1] + (y - 50) * d[0], 1000)
        r["lat_sine"] = fx(y - 5 * math.sin(2 * math.pi / 100 * x), 1000)
        r["s_straight"] = fx((x - 50) * d[0] + (y - 50) * d[1], 1000)
    return r


def lanes_of(env, kind):
    """The lanes of the road of this episode (settings changed since the reset concern the next one)."""
    return len(env.road.network.graph["0"]["1"]) if kind == "highway" and env.road is not None else 0


def config_facts(env, kind):
    c = env.config
    d = {"sf": int(c["simulation_frequency"]), "pf": int(c["policy_frequency"]), "duration": int(c.get("duration", 0)),
         "offroad_terminal": bool(c.get("offroad_terminal", False)), "lanes": lanes_of(env, kind),
         "manual": bool(c["manual_control"]), "norm": bool(c.get("normalize_reward", False)),
         "cr": fx(c.get("collision_reward", 0), 1000)}
    lo, hi = c.get("reward_speed_range", [20, 30])
    d["rlo"], d["rhi"] = fx(lo, 1000), fx(hi, 1000)
    return d


class Recorder:
    """Wraps one environment (public methods of its instances only) and records events."""

    def __init__(self, env, kind, tag, frames=True):
        self.env, self.kind, self.tag = env, kind, tag
        self.events = []
        self.seq = []
        self.frames = frames
        self.nframes = 0
        self.maxrec = 1
        self.outer = None               # a wrapper of the environment, whose steps tell about every agent

    def base(self, k):
        e = self.env
        return {"k": k, "tag": self.tag, "kind": W.task(self.kind), "variant": self.kind, "c": config_facts(e, self.kind),
                "steps": int(e.steps), "time": int(e.time)}

    def wrap(self):
        env = self.env
        seq = self.seq
        rec = self

        def wrap_act(v, i):
            orig = v.act

            def act(action=None):
                seq.append(["D", i + 1] if action is None else ["F", i + 1])
                return orig(action) if action is not None else orig()
            v.act = act

        for i, v in enumerate(env.controlled_vehicles):
            wrap_act(v, i)
        orig_step = env.road.step

        def step(dt, *a, **k):
            out = orig_step(dt, *a, **k)
            seq.append(["S", fx(dt, 1e9)])
            rec.frames_facts.append(facts(env, rec.kind))
            return out
        env.road.step = step
        self.frames_facts = []

    def reset(self):
        obs, err = call(self.env.reset)
        if err is None:
            self.wrap()
        e = self.base("reset")
        e.update({"ok": err is None, "err": err or ""})
        e["agents"] = len(self.env.controlled_vehicles)
        self.events.append(e)
        return obs

    def step(self, action, obs_facts=None):
        env = self.env
        del self.seq[:]
        self.frames_facts = []
        before = {"steps": int(env.steps), "time": int(env.time)}
        each = []
        if self.outer is not None:
            inner = []
            real = type(env).step

            def step(a):
                inner.append(real(env, a))
                return inner[-1]
            env.step = step
            out, err = call(self.outer.step, action)
            del env.step
            if err is None:
                obs, rewards, dones, info = out
                out = inner[0]
                each = [{"rewards": fxs(rewards, 1e6), "dones": [bool(x) for x in dones], "same": obs is out[0] and info is out[3]}]
        else:
            out, err = call(env.step, action)
        e = self.base("step")
        e["each"] = each
        e.update({"ok": err is None, "err": err or "", "none": action is None,
                  "action": action if isinstance(action, (int, np.integer)) else -1,
                  "seq": [list(s) for s in self.seq], "frames": self.frames_facts, "f": facts(env, self.kind),
                  "r": reward_facts(env, self.kind), "done": False, "reward": 0})
        if err is None:
            obs, reward, done, info = out
            e["done"] = bool(done)
            e["reward"] = fx(reward, 1e6)
            e["info"] = {"has": sorted(str(k) for k in info),
                         "speed": fx(info["speed"], 1000) if "speed" in info else 0,
                         "crashed": bool(info.get("crashed", False)),
                         "sameaction": same_action(info["action"], action) if "action" in info else False,
                         "cost": fx(info["cost"], 1e6) if "cost" in info else -1}
            if "agents_rewards" in info:
                e["info"]["agents_rewards"] = fxs(info["agents_rewards"], 1e6)
                e["info"]["agents_dones"] = [bool(x) for x in info["agents_dones"]]
            if "is_success" in info:
                s = info["is_success"]
                e["info"]["success"] = [bool(x) for x in (s if isinstance(s, tuple) else (s,))]
            if obs_facts:
                e.update(obs_facts(env, obs))
        self.nframes += len(self.frames_facts)
        self.events.append(e)
        return out

    def close(self):
        _, err = call(self.env.close)
        e = self.base("close")
        e.update({"ok": err is None, "err": err or ""})
        self.events.append(e)


def same_action(a, b):
    if a is None or b is None:
        return a is b
    return bool(np.array_equal(np.asarray(a), np.asarray(b)))


def ram_ego(env, agent=0):
    """Put a stopped vehicle some metres in front of an agent, on its heading (so that a crash follows soon)."""
    ego = env.controlled_vehicles[agent]
    for v in env.road.vehicles:
        if v not in env.controlled_vehicles:
            v.position = ego.position + 9.0 * np.array([np.cos(ego.heading), np.sin(ego.heading)])
            v.heading = ego.heading
            v.speed = 0.
            if hasattr(v, "target_speed"):
                v.target_speed = 0.
            v.on_state_update()
            break


SMALL = {"highway": {"vehicles_count": 6}}


def cases(quick, seed):
    """(kind, config, policy, steps, options)"""
    F = [(15, 1), (15, 5), (10, 3), (12, 12), (7, 2), (5, 1), (20, 8), (15, 4)]
    out = []
    for k in ["highway", "merge", "roundabout", "two-way", "intersection", "multi-intersection", "parking", "summon"]:
        cfgs = F if not quick else F[:5] if k in ("highway", "roundabout") else [F[1], F[2], F[4]]
        for j, (sf, pf) in enumerate(cfgs):
            c = dict(SMALL.get(k, {}))
            c.update({"simulation_frequency": sf, "policy_frequency": pf})
            if k == "highway":
                c["duration"] = [4, 9, 40, 3, 6, 5, 7, 12][j]
                c["lanes_count"] = [4, 2, 3, 1, 5, 3, 2, 6][j]
                c["offroad_terminal"] = j % 2 == 0
                c["collision_reward"] = [-1, -1, -0.5, -3, -1, -2, -1, -0.25][j]
                c["reward_speed_range"] = [[20, 30], [20, 30], [15, 30], [22, 36], [20, 30], [10, 30], [24, 26], [20, 30]][j]
            if j % 3 == 1:      # settings of the display concern the display only
                c.update({"real_time_rendering": True, "show_trajectories": k != "roundabout"})
            if k == "roundabout":
                c["duration"] = [11, 5, 3, 7, 4, 2, 6, 8][j]
            if k in ("parking", "summon"):
                c["duration"] = [9, 12, 5, 3, 7, 8, 6, 4][j]
            if k in ("intersection", "multi-intersection"):
                c["duration"] = [13, 5, 3, 2, 4, 7, 6, 3][j]
                c["initial_vehicle_count"] = 4
                c["normalize_reward"] = j % 4 in (1, 2)
                c["collision_reward"] = [-5, -5, -2, -5, -1, -5, -3, -5][j]
            if k == "multi-intersection":
                c["controlled_vehicles"] = 2 + j % 2
            for opt in (["plain", "ram"] if k not in ("parking",) else ["plain", "goal"]):
                out.append((k, c, opt))
    # the decision loop with other kinds of control
    cont = {"action": {"type": "ContinuousAction"}, "simulation_frequency": 15, "policy_frequency": 5, "vehicles_count": 4,
            "offroad_terminal": True, "lanes_count": 2, "duration": 30}
    out.append(("highway", cont, "offroad"))
    out.append(("highway", dict(cont, offroad_terminal=False), "offroad"))
    out.append(("highway", dict(cont, lanes_count=3, duration=12, reward_speed_range=[22, 27]), "plain"))
    multi = {"controlled_vehicles": 2, "duration": 10, "simulation_frequency": 15, "policy_frequency": 5,
             "action": {"type": "MultiAgentAction", "action_config": {"type": "ContinuousAction"}},
             "observation": {"type": "MultiAgentObservation", "observation_config": {
                 "type": "KinematicsGoal", "features": ['x', 'y', 'vx', 'vy', 'cos_h', 'sin_h'],
                 "scales": [100, 100, 5, 5, 1, 1], "normalize": False}}}
    out.append(("parking", multi, "plain"))
    out.append(("parking", multi, "goal"))
    out.append(("parking", multi, "goals"))
    out.append(("parking", dict(multi, controlled_vehicles=3), "last"))
    out.append(("multi-intersection", {"controlled_vehicles": 3, "initial_vehicle_count": 1, "spawn_probability": 0,
                                       "simulation_frequency": 15, "policy_frequency": 5}, "last"))
    out.append(("highway", {"manual_control": True, "vehicles_count": 3, "simulation_frequency": 10,
                            "policy_frequency": 2, "duration": 8}, "plain"))
    # agents who go on while another one has crashed, and two controlled vehicles on the ramp of the merge
    out.append(("highway", {"controlled_vehicles": 3, "vehicles_count": 0, "lanes_count": 5, "duration": 9, "simulation_frequency": 15,
                            "policy_frequency": 5, "action": {"type": "MultiAgentAction", "action_config": {"type": "DiscreteMetaAction"}},
                            "observation": {"type": "MultiAgentObservation", "observation_config": {"type": "Kinematics"}}}, "last"))
    out.append(("merge", {"simulation_frequency": 15, "policy_frequency": 5}, "ramp"))
    out.append(("merge", {"simulation_frequency": 6, "policy_frequency": 1}, "long"))
    out.append(("two-way", {"simulation_frequency": 15, "policy_frequency": 2}, "end"))
    out.append(("two-way", {"simulation_frequency": 10, "policy_frequency": 1}, "end"))
    out.append(("intersection", {"duration": 40, "initial_vehicle_count": 1, "spawn_probability": 0}, "arrive"))
    out.append(("multi-intersection", {"duration": 40, "initial_vehicle_count": 1, "spawn_probability": 0,
                                       "controlled_vehicles": 2}, "arrive"))
    out.append(("multi-intersection", {"duration": 4, "initial_vehicle_count": 3, "simulation_frequency": 10, "policy_frequency": 2}, "tuple"))
    for k in (2, 3):
        out.append(("multi-intersection", {"duration": 20, "initial_vehicle_count": 1, "spawn_probability": 0,
                                           "controlled_vehicles": k}, "one"))
    out.append(("lane-keeping", {}, "plain"))
    out.append(("lane-keeping", {"simulation_frequency": 9, "policy_frequency": 3}, "plain"))
    return out


def drive(quick, seed, obs_facts=None, limit=None, reps=None):
    """Run all cases; yields Recorder objects."""
    reps = reps or (1 if quick else 3)
    for rep in range(reps):
        for n, (kind, cfg, opt) in enumerate(cases(quick, seed)):
            rng = np.random.RandomState((seed * 1009 + rep * 7919 + n) % (2 ** 31))
            tag = "%s/%s#%d.%d" % (kind, opt, n, rep)
            cfg = dict(cfg)
            outer = None
            if opt == "tuple":
                outer = W.E().TupleMultiAgentIntersectionEnv()
                env = outer.unwrapped
                env.configure(dict(cfg))
            else:
                env = W.cls(kind)(dict(cfg))
            env.seed(int(rng.randint(10 ** 6)))
            r = Recorder(env, kind, tag)
            r.outer = outer
            nsteps = {"tuple": 9, "end": 14, "plain": 8, "ram": 6, "goal": 8, "offroad": 34, "long": 16, "arrive": 22,
                      "last": 8, "goals": 4, "ramp": 12, "one": 4}[opt]
            if kind == "highway" and opt == "plain":
                nsteps = 12
            if kind == "lane-keeping":
                nsteps = 60
            if not quick:
                nsteps = int(nsteps * 1.5)
            for episode in range(2 if opt in ("plain", "ram", "goal", "last", "goals", "ramp", "one", "tuple", "end") else 1):
                r.reset()
                if kind == "highway" and "lanes_count" in cfg and n % 3 == 1:   # settings of the next episode
                    env.configure({"lanes_count": cfg["lanes_count"] + 1 - 2 * (episode % 2) * (cfg["lanes_count"] > 1)})
                if (n + episode) % 4 == 3:      # agents with another number of speeds
                    for v in env.controlled_vehicles:
                        if hasattr(v, "speed_index"):
                            v.SPEED_COUNT = [1, 2, 5][(n // 4) % 3]
                            v.speed_index = min(v.speed_index, v.SPEED_COUNT - 1)
                if opt in ("ram", "tuple"):
                    ram_ego(env, (n + episode) % len(env.controlled_vehicles))
                if opt == "last":  # an agent other than the first crashes by itself, against an obstacle
                    from highway_env.road.objects import Obstacle
                    v = env.controlled_vehicles[min(1 + episode % max(len(env.controlled_vehicles) - 1, 1), len(env.controlled_vehicles) - 1)]
                    env.road.vehicles = [u for u in env.road.vehicles if u in env.controlled_vehicles]
                    v.speed = 5.
                    env.road.objects.append(Obstacle(env.road, v.position + 6.0 * np.array(
                        [np.cos(v.heading), np.sin(v.heading)])))
                if opt == "ramp":  # several slow vehicles on the merging lane
                    from highway_env.vehicle.behavior import IDMVehicle
                    lane = ("b", "c", 2)
                    for j in range(2):
                        env.road.vehicles.append(IDMVehicle.make_on_lane(env.road, lane, 15. + 22 * j, speed=12. + 5 * j))
                        env.road.vehicles[-1].target_speed = 26. + 2 * j
                    if episode:  # and one that nobody drives
                        from highway_env.vehicle.kinematics import Vehicle
                        env.road.vehicles.append(Vehicle.make_on_lane(env.road, lane, 60., speed=20.))
                if opt == "goals":  # the agents reach the goal, one after the other, without minding each other
                    for j, v in enumerate(env.controlled_vehicles):
                        v.COLLISIONS_ENABLED = False
                        if episode == 0 or j == 1:
                            v.position = env.goal.position + np.array([0.2 * j, 0.1])
                            v.heading = env.goal.heading
                if opt == "one":  # one agent (the first, then the last) is about to arrive, the others are not
                    v = env.controlled_vehicles[-(episode % 2)]
                    lane = env.road.network.get_lane(("il1", "o1", 0))
                    v.position, v.heading, v.lane, v.lane_index = lane.position(45, 0), lane.heading_at(45), lane, ("il1", "o1", 0)
                    v.target_lane_index, v.route = v.lane_index, [v.lane_index]
                    env.road.vehicles = list(env.controlled_vehicles)
                if opt == "end":  # the road ends, where the opposite one begins (and the other way around)
                    v = env.controlled_vehicles[0]
                    i = [("a", "b", 1), ("b", "a", 0)][episode]
                    lane = env.road.network.get_lane(i)
                    v.position, v.heading, v.lane, v.lane_index, v.target_lane_index = lane.position(750, 0), lane.heading_at(750), lane, i, i
                    env.road.vehicles = list(env.controlled_vehicles)
                if opt == "arrive" and kind == "intersection":
                    env.road.vehicles = list(env.controlled_vehicles)
                if opt == "goal" and episode == 0:
                    g = env.goal
                    v = env.controlled_vehicles[0]
                    k = [0.0, 1.0, 1.3, 1.5, 2.2][n % 5]
                    v.position = g.position + np.array([k * 0.9, k * 0.3])
                    v.heading = g.heading + 0.05 * k
                over = 0
                for t in range(nsteps):
                    if opt == "offroad":
                        if t == 16 and not cfg["offroad_terminal"]:     # a crash where there is no road
                            from highway_env.road.objects import Obstacle
                            env.road.objects.append(Obstacle(env.road, env.vehicle.position + 10. * np.array(
                                [np.cos(env.vehicle.heading), np.sin(env.vehicle.heading)])))
                        a = np.array([0.2, [0.5, -0.5][rep % 2] if t < 4 else 0.0], dtype=np.float32)
                    elif opt == "end":
                        a = 1 if rng.rand() < .7 else W.sample_action(env, rng)
                    elif opt == "arrive":
                        a = tuple(2 for _ in env.controlled_vehicles) if kind == "multi-intersection" else 2
                    elif opt in ("goal", "goals", "last") and kind == "parking" and (episode == 0 or opt != "goal"):
                        a = np.array([0.3 * rng.randn(), 0.0], dtype=np.float32)
                        if len(env.controlled_vehicles) > 1:
                            a = tuple(np.array([0.3 * rng.randn(), 0.0], dtype=np.float32) if opt != "last" else
                                      np.array([1.0, 0.0], dtype=np.float32) for _ in env.controlled_vehicles)
                    elif opt == "last" and kind == "highway":
                        a = tuple([1, 3, 4][rng.randint(3)] for _ in env.controlled_vehicles)
                    elif opt == "ram":
                        a = W.sample_action(env, rng) if kind in ("summon",) or rng.rand() < .3 else \
                            (tuple(1 for _ in env.controlled_vehicles) if kind == "multi-intersection" else 1)
                        if kind == "summon":
                            a = np.array([1.0, 0.0], dtype=np.float32)
                    elif kind in ("highway", "roundabout") and rng.rand() < .08:
                        a = None
                    elif kind == "intersection" and rng.rand() < .5:
                        a = 2
                    else:
                        a = W.sample_action(env, rng)
                    out = r.step(a, obs_facts)
                    if out is None:
                        break
                    if out[2]:
                        over += 1
                        if over >= (3 if opt == "ram" else 2):
                            break
                if opt == "plain" and episode == 0 and n % 3 == 0:
                    r.close()
                    r.step(W.sample_action(env, rng), obs_facts)
                    r.step(W.sample_action(env, rng), obs_facts)
            yield r
