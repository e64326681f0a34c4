"""Executes schedules of operations on real environments and records digests of all of them: see spec/Histories.tla.

Run as a program, it reads jobs from a file and writes events: the same jobs are run in several processes.
"""
import hashlib
import json
import os
import random
import sys

import numpy as np

from . import core, worlds as W


def canon(x, depth=0):
    """A value as nested tuples of strings, exact for floats."""
    if x is None or isinstance(x, (bool, str)):
        return str(x)
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    if isinstance(x, np.ndarray):
        return (str(x.shape),) + tuple(canon(v) for v in x.ravel().tolist())
    if isinstance(x, dict):
        return tuple(sorted((str(k), canon(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v, depth + 1) for v in x)
    if isinstance(x, np.bool_):
        return str(bool(x))
    return type(x).__name__


def sha(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


VEHICLE = ["position", "heading", "speed", "crashed", "hit", "lane_index", "target_lane_index", "target_speed", "speed_index", "route",
           "timer", "action", "enable_lane_change", "collisions_enabled", "lateral_speed", "yaw_rate", "DELTA", "COMFORT_ACC_MAX",
           "COMFORT_ACC_MIN", "DISTANCE_WANTED", "TIME_WANTED", "POLITENESS", "LANE_CHANGE_MAX_BRAKING_IMPOSED", "SPEED_MIN",
           "SPEED_MAX", "SPEED_COUNT", "MAX_SPEED", "LENGTH", "WIDTH", "ACCELERATION_PARAMETERS", "STEERING_PARAMETERS", "PERCEPTION_DISTANCE"]


def vehicle_state(v, ids):
    return (type(v).__name__, ids.get(id(v), -1)) + tuple(canon(getattr(v, a)) if hasattr(v, a) else "-" for a in VEHICLE)


def lane_state(net):
    out = []
    for a in net.graph:
        for b in net.graph[a]:
            for i, l in enumerate(net.graph[a][b]):
                out.append((a, b, i, canon(l.position(0, 0)), canon(l.length), canon(l.width), canon(l.speed_limit), canon(l.forbidden),
                            canon(getattr(l, "priority", 0))))
    return tuple(out)


def state(env, rng=True):
    """All that an environment shows, and the state of its random generator."""
    e = env.unwrapped
    cv = e.controlled_vehicles
    ids = {id(v): i for i, v in enumerate(cv)}
    road = e.road
    s = [type(e).__name__, e.time, e.steps, bool(e.done), canon(e.config),
         tuple(vehicle_state(v, ids) for v in road.vehicles), tuple(vehicle_state(v, ids) for v in cv),
         tuple(vehicle_state(v, ids) for v in road.objects), lane_state(road.network)]
    if rng:
        s.append(sha(canon(np.asarray(e.np_random.get_state()[1]))))
        s.append(road.np_random is e.np_random)
    if hasattr(e, "goal"):
        s.append(vehicle_state(e.goal, ids))
    a = e.action_type
    s.append((str(e.action_space), str(e.observation_space)))
    s.append(canon(getattr(a, "last_action", None)))
    return s


def action(env, key):
    """Actions by number: the same for every environment of a kind."""
    if key >= FAST:
        e = env.unwrapped
        t = e.action_type
        ts = getattr(t, "agents_action_types", None)
        if all(hasattr(x, "actions_indexes") and "FASTER" in x.actions_indexes for x in ts or [t]):
            a = [x.actions_indexes["FASTER"] for x in ts or [t]]
            return tuple(a) if ts else a[0]
    rng = np.random.RandomState(1000 + key)
    return W.sample_action(env, rng)


FAST = 900      # from this number on, actions ask everybody to go faster


def tweak(env):
    """Edit nested settings of the configuration in place."""
    o = env.unwrapped.config["observation"]
    o = o.get("observation_config", o)
    if o["type"] == "Kinematics":
        o["vehicles_count"] = o.get("vehicles_count", 5) + 1
    elif o["type"] == "TimeToCollision":
        o["horizon"] = 4
    elif o["type"] == "KinematicsGoal":
        o["scales"][0] = 50
    elif o["type"] == "OccupancyGrid":
        o["grid_size"] = [[-10, 10], [-10, 10]]


def spawn(env):
    """A copy of the environment with one more driver, at random."""
    import copy
    from highway_env.vehicle.behavior import IDMVehicle
    e = copy.deepcopy(env)
    e.road.vehicles.append(IDMVehicle.create_random(e.road))
    return e


DERIVE = {
    "spawn": spawn,
    "simplify": lambda e: e.simplify(),
    "linear": lambda e: e.change_vehicles("highway_env.vehicle.behavior.LinearVehicle"),
    "idm": lambda e: e.change_vehicles("highway_env.vehicle.behavior.IDMVehicle"),
    "lane0": lambda e: e.set_preferred_lane(0),
    "lane1": lambda e: e.set_preferred_lane(1),
    "route": lambda e: e.set_route_at_intersection("random"),
    "route1": lambda e: e.set_route_at_intersection(1),
    "field": lambda e: e.set_vehicle_field(("target_speed", 17.)),
    "crash": lambda e: e.set_vehicle_field(("crashed", True)),
    "unroute": lambda e: e.set_vehicle_field(("route", None)),
    "random": lambda e: e.randomize_behaviour(),
}


class Runner:
    def __init__(self, tag, noise=None, share=False, watch=None):
        self.share, self.watch, self.configs = share, watch, {}
        self.envs, self.kinds, self.last, self.obs = {}, {}, {}, {}
        self.events = []
        self.tag = tag
        self.noise = np.random.RandomState(noise) if noise is not None else None
        self.other = None
        self.attrs = None

    def show(self, i):
        return sha((state(self.envs[i]), self.last.get(i)))

    def disturb(self):
        """What should not matter: global generators, other environments."""
        r = self.noise
        np.random.seed(int(r.randint(10 ** 6)))
        np.random.rand(int(r.randint(5)))
        random.seed(int(r.randint(10 ** 6)))
        if self.other is None or r.rand() < .1:
            self.other = W.cls(["merge", "highway", "two-way"][r.randint(3)])()
        else:
            self.other.step(1)

    def event(self, kind, i, op="", frm=0, root="", err=None):
        kept = True
        for d, o in self.obs.get(i, [])[-6:]:
            kept = kept and sha(canon(o)) == d
        self.events.append({"kind": kind, "id": i, "from": frm, "op": op, "root": root, "tag": self.tag, "ok": err is None,
                            "err": err or "", "kept": kept, "attr": "",
                            "config": "" if not self.configs else "yes" if all(
                                json.dumps(json.loads(n)[1], sort_keys=True) == json.dumps(c, sort_keys=True)
                                for n, c in self.configs.items()) else "no",
                            "digests": [{"id": j, "d": self.show(j)} for j in sorted(self.envs)] if err is None else []})
        if self.watch is not None:
            for a in self.watch.changed():
                self.events.append(dict(boundary(self.tag), kind="class", attr=a, op=kind, root=self.kinds.get(i, "")))
            if len(self.events) % 40 == 0:
                self.events.append(dict(boundary(self.tag), kind="class", op=kind))

    def note(self, i, out):
        obs = out[0] if isinstance(out, tuple) and len(out) == 4 and isinstance(out[3], dict) else out
        d = sha(canon(obs))
        self.obs.setdefault(i, []).append((d, obs))
        self.last[i] = sha(canon(out))

    def do(self, kind, i, op="", frm=0, root=None, **k):
        if self.noise is not None:
            self.disturb()
        err = None
        name = ""
        if kind == "make":
            rkind, cfg = root
            name = json.dumps(root, sort_keys=True)

            def make():
                c = json.loads(json.dumps(cfg))
                if self.share:             # environments of the same root are given the same object
                    c = self.configs.setdefault(name, c)
                env = W.gym_make(rkind) if rkind.endswith(tuple("0123456789")) else W.cls(rkind)(c)
                env.seed(int(op))
                return env, env.reset()
            out, err = core.call(make)
            if err is None:
                self.envs[i], self.kinds[i] = out[0], rkind
                self.note(i, out[1])
            op = "seed:%s" % op
        elif kind == "seed":
            _, err = core.call(self.envs[i].seed, int(op))
            op = "seed:%s" % op
        elif kind == "reset":
            out, err = core.call(self.envs[i].reset)
            if err is None:
                self.note(i, out)
            op = "reset"
        elif kind == "step":
            out, err = core.call(self.envs[i].step, action(self.envs[i], int(op)))
            if err is None:
                self.note(i, out)
            op = "step:%s" % op
        elif kind == "copy":
            import copy
            out, err = core.call(copy.deepcopy, self.envs[frm])
            if err is None:
                self.envs[i], self.kinds[i], self.last[i] = out, self.kinds[frm], self.last.get(frm)
        elif kind == "derive":
            out, err = core.call(DERIVE[op], self.envs[frm].unwrapped)
            if err is None:
                self.envs[i], self.kinds[i], self.last[i] = out, self.kinds[frm], self.last.get(frm)
        elif kind == "drop":
            for d in (self.envs, self.kinds, self.last, self.obs):
                d.pop(i, None)
        elif kind == "look":
            e = self.envs[i].unwrapped
            # noisy and shuffled observations draw numbers
            if self.kinds[i] not in ("lane-keeping", "lane-keeping-v0") and e.config["observation"].get("order") != "shuffled":
                _, err = core.call(e.observation_type.observe)
            e.action_space.sample()
            if err is None and type(e.action_type).__name__ == "DiscreteMetaAction" and hasattr(e.vehicle, "target_lane_index"):
                _, err = core.call(e.get_available_actions)
        elif kind == "render":
            _, err = core.call(self.envs[i].render, "rgb_array")
        elif kind == "configure":
            _, err = core.call(self.envs[i].unwrapped.configure, json.loads(op))
        elif kind == "tweak":
            _, err = core.call(tweak, self.envs[i])
        elif kind == "close":
            _, err = core.call(self.envs[i].close)
        self.event(kind, i, op, frm, name, err)
        return err is None

    def finish(self):
        for e in self.envs.values():
            core.call(e.close)
        if self.other is not None:
            core.call(self.other.close)


def boundary(tag):
    return {"kind": "process", "id": 0, "from": 0, "op": "", "root": "", "tag": tag, "ok": True, "err": "", "kept": True, "config": "", "attr": "", "digests": []}


def variety(tag, ds):
    return dict(boundary(tag), kind="variety", ds=ds)


def run_job(job, tag, noise):
    """job: {"ops": [[kind, id, op, from, root], ...]}"""
    r = Runner(tag, noise)
    for kind, i, op, frm, root in job["ops"]:
        if kind != "make" and (frm or i) not in r.envs:
            continue
        r.do(kind, i, op, frm, root)
    r.finish()
    return [boundary(tag)] + r.events


def schedule_job(schedule, roots, seeds, tail=3):
    """The job of a generated schedule: environment 1 exists; others are made with root number 1 or 2."""
    ops = [["make", 1, str(seeds[0]), 0, roots[0]]]
    ids = [1]
    for k, (o, i, frm, a) in enumerate(schedule):
        if o == "step":
            ops.append(["step", i, str(a), 0, None])
        elif o == "make":
            ops.append(["make", i, str(seeds[(a + k) % len(seeds)]), 0, roots[a - 1]])
        elif o == "copy":
            ops.append(["copy", i, "", frm, None])
        elif o == "reset":
            ops.append(["reset", i, "", 0, None])
        elif o == "reseed":
            ops += [["seed", i, str(seeds[k % len(seeds)]), 0, None], ["reset", i, "", 0, None]]
        elif o == "look":
            ops.append(["look", i, "", 0, None])
        if i not in ids:
            ids.append(i)
    for t in range(tail):                  # everybody goes on with the same actions
        for i in ids:
            ops.append(["step", i, str(t + 1), 0, None])
    return {"ops": ops}


def show(c):
    try:
        return "%g" % float.fromhex(c) if "0x" in c else str(c)[:60]
    except (TypeError, ValueError):
        return str(c)[:60]


class ClassWatch:
    """The parameters of all classes of the repository, and their default configurations."""

    def __init__(self):
        import highway_env.envs  # noqa: F401
        self.classes = []
        for n, m in sorted(sys.modules.items()):
            if n.startswith("highway_env"):
                for c in vars(m).values():
                    if isinstance(c, type) and c.__module__.startswith("highway_env") and c not in self.classes:
                        self.classes.append(c)
        self.now = self.snapshot()

    def snapshot(self):
        s = {}
        for c in self.classes:
            for a, v in vars(c).items():
                if a.isupper() or a.replace("_", "").isupper():
                    s["%s.%s" % (c.__name__, a)] = canon(v)
            if hasattr(c, "default_config"):
                s["%s.default_config" % c.__name__] = sha(canon(object.__new__(c).default_config()))
        return s

    def changed(self):
        new = self.snapshot()
        d = sorted("%s=%s" % (a, show(new.get(a))) for a in set(new) | set(self.now) if new.get(a) != self.now.get(a))
        self.now = new
        return d


def main():
    core.setup_env()
    jobs = json.load(open(sys.argv[1]))
    out = []
    for n, job in enumerate(jobs["jobs"]):
        out += run_job(job, "%s/%d" % (jobs["tag"], n), (jobs["noise"] + n) if jobs["noise"] else None)
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)


def in_process(ctx, jobs, tag, noise, hashseed):
    """Runs the jobs in a fresh process; returns its handle and output path."""
    import subprocess
    import tempfile
    d = tempfile.mkdtemp(dir=ctx.work)
    inp, outp = os.path.join(d, "in.json"), os.path.join(d, "out.json")
    json.dump({"jobs": jobs, "tag": tag, "noise": noise}, open(inp, "w"))
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.Popen([core.PY, "-m", "harness.histories", inp, outp], cwd=core.VERIF, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True)
    return p, outp


def collect(handles, timeout=700):
    out = []
    for p, outp in handles:
        try:
            txt, _ = p.communicate(timeout=timeout)
        except Exception:
            p.kill()
            raise core.MachineryError("history process timed out")
        if p.returncode != 0 or not os.path.exists(outp):
            raise core.MachineryError("history process failed:\n" + txt[-3000:])
        out.append(json.load(open(outp)))
    return out


if __name__ == "__main__":
    main()
