"""C20: the lane keeping task: states, derivatives, references, noise; linear dynamics of bicycle vehicles."""
import math

import numpy as np

from .. import worlds as W
from ..core import fx, call

ATTRIBUTES = ["state", "derivative", "reference_state"]


def state(v):
    return np.array([v.position[1], v.heading, v.lateral_speed, v.yaw_rate], float)


def ints(a, n=1e5):
    return [fx(x, n) for x in np.ravel(a)]


def followed(env):
    return 2 if env.lane is env.road.network.get_lane(("a", "b", 0)) else 1


def episode(ctx, rng, config, seed, steps, pilot, tag, lines):
    env = W.cls("lane-keeping")(dict(config))
    env.seed(seed)
    obs = env.reset()
    asked = config["observation"]["attributes"]
    sn, dn = env.config["state_noise"], env.config["derivative_noise"]
    frames = env.config["simulation_frequency"]
    noise = []

    def record(k, obs, before, x, after, done):
        d = (after - before) * frames if after is not None else before * 0
        e = {"k": k, "tag": tag, "keys": [str(a) for a in obs], "asked": list(asked), "x": fx(x[0], 1e5), "y": fx(x[1], 1e5), "state": ints(before),
             "derivative": ints(d), "smooth": after is not None and abs(before[3]) < 6 and env.config["policy_frequency"] == frames,
             "obs": {a: ints(obs[a]) if a in obs else [] for a in ATTRIBUTES}, "snoise": fx(sn, 1e5), "dnoise": fx(dn, 1e5),
             "lane": followed(env), "done": bool(done)}
        if "state" in obs and sn:
            noise.extend((np.ravel(obs["state"]) - before) / sn)
        if "derivative" in obs and dn and e["smooth"]:
            noise.extend((np.ravel(obs["derivative"]) - d) / dn)
        lines.append(e)
    v = env.vehicle
    record("start", obs, state(v), v.position.copy(), None, False)
    actions = []
    for t in range(steps):
        if pilot == "random":
            a = rng.uniform(-1, 1)
        elif pilot == "weave":
            a = .25 * math.sin(t / 5) + rng.uniform(-.05, .05)
        else:                                       # follow the reference
            s, r = env.lane.local_coordinates(v.position)
            a = float(np.clip(-.05 * r - .8 * math.remainder(v.heading - env.lane.heading_at(s + 5), 2 * math.pi), -1, 1))
        if t == steps // 2 and pilot == "weave":    # somewhere else
            v.position = np.array([rng.uniform(0, 200), rng.uniform(-10, 60)])
        before, x = state(v), v.position.copy()
        actions.append(a)
        obs, _, done, _ = env.step(np.array([a]))
        record("step", obs, before, x, state(v), done)
    return actions, noise, state(v)


def predicted(rng, n, lines):
    """What is recorded of an episode: the states, and the bounds of a predictor of the lateral ones that runs along."""
    from highway_env.interval import LPV
    env = W.cls("lane-keeping")({"simulation_frequency": int([10, 20, 5][n % 3]), "policy_frequency": int([10, 20, 5][n % 3])})
    env.seed(int(rng.randint(10 ** 6)))
    env.reset()
    v = env.vehicle
    a = rng.uniform(0, .5, (4, 4)) - 2 * np.eye(4)
    if n % 2:                   # with real eigenvalues, not Metzler: in other coordinates
        t = rng.uniform(-1, 1, (4, 4)) + 2 * np.eye(4)
        a = t @ np.diag([-1., -2., -3., -4.]) @ np.linalg.inv(t)
    b, gain = rng.uniform(-.5, .5, (4, 1)), rng.uniform(-.3, .3, (1, 4)) * (n % 4 > 1)

    def predictor():
        x = state(v)
        return LPV(x, a - b @ gain, [.05 * np.eye(4)], b=b, k=gain, center=np.array([.5, 0, 0, 0]), x_i=np.array([x - .1, x + .1]))
    mine = predictor()
    env.lpv = predictor()
    f = env.config["simulation_frequency"]
    for t in range(12):
        whole = np.ravel(v.state).copy()
        box = np.array(mine.change_coordinates(mine.x_i_t, back=True, interval=True))
        u = float(rng.uniform(-.5, .5))
        counts = [len(env.trajectory), len(env.interval_trajectory)]
        mine.set_control(control=np.array([[u]]), state=state(v).reshape(4, 1))
        mine.step(1 / f)
        r, err = call(env.step, np.array([u]))
        e = {"k": "stored", "tag": "stored %d %d" % (n, t), "ok": err is None, "err": err or "", "state": ints(whole), "box": [ints(z) for z in box]}
        if err is None:
            e["grown"] = [len(env.trajectory) - counts[0], len(env.interval_trajectory) - counts[1]]
            e["got"] = ints(env.trajectory[-1])
            e["bounds"] = [ints(z) for z in env.interval_trajectory[-1]]
        lines.append(e)


def run(ctx):
    from highway_env.vehicle.dynamics import BicycleVehicle
    from highway_env.road.road import Road, RoadNetwork
    ctx.model_check("MCLaneKeeping")
    ctx.model_check("MCBicycle")
    rng = np.random.RandomState(ctx.seed + 2000)
    lines = []
    big = 1 if ctx.quick else 10
    for n in range(18 * big):
        pilot = ["follow", "weave", "random"][n % 3]
        asked = [ATTRIBUTES, ATTRIBUTES[::-1], ["state"], ["reference_state", "state"]][0 if n % 2 else rng.randint(4)]
        config = {"observation": {"type": "AttributesObservation", "attributes": list(asked)},
                  "state_noise": float(rng.choice([0, .05, .5])), "derivative_noise": float(rng.choice([0, .05, .5]))}
        if n % 5 == 4:
            config.update(simulation_frequency=20)
        steps = 150 if pilot == "follow" else 60
        seed = int(rng.randint(10 ** 6))
        random = np.random.RandomState(seed)
        _, noise, end = episode(ctx, random, config, seed, steps, pilot, "%s %d" % (pilot, n), lines)
        # the same, without noise
        if noise:
            rest = []
            _, none, end0 = episode(ctx, np.random.RandomState(seed), dict(config, state_noise=0, derivative_noise=0), seed, steps, pilot, "quiet %d" % n, rest)
            lines += rest
            lines.append({"k": "noise", "tag": "%s %d" % (pilot, n), "most": fx(max(noise) - 1e-9, 1000), "least": fx(min(noise) + 1e-9, 1000),
                          "same": bool(np.array_equal(end, end0))})
    for n in range(8 * big):
        predicted(rng, n, lines)
    # linear dynamics
    road = Road(RoadNetwork.straight_road_network(1), np_random=np.random.RandomState(0))
    for n in range(600 * big):
        speed = float(rng.choice([rng.uniform(1, 15), rng.uniform(2, 15), rng.uniform(-.99, .99), rng.uniform(-15, -1), 1.]))
        v = BicycleVehicle(road, [rng.uniform(0, 100), rng.uniform(-5, 5)], float(rng.choice([0, rng.uniform(-4, 4)])),
                           speed if n % 2 else float(rng.uniform(-10, 15)))
        v.speed = speed          # possibly other than at the start
        gentle = n % 3 == 0 and speed > 2
        k = .004 if gentle else 1.
        v.lateral_speed, v.yaw_rate = float(rng.uniform(-2, 2) * k), float(rng.uniform(-1, 1) * k)
        v.action = {"steering": float(rng.uniform(-.5, .5) * k), "acceleration": float(rng.uniform(-5, 5))}
        psi = float(rng.uniform(-.3, .3))
        u = np.array([[v.action["steering"]]])
        got, err = call(lambda: np.array([float(np.ravel(x)[0]) for x in v.derivative_linear]))

        def full():
            A, B = v.full_lateral_lpv_dynamics()
            return np.ravel(A @ np.array([[v.position[1]], [psi], [v.lateral_speed], [v.yaw_rate]]) + B @ u)
        whole, err2 = call(full)
        ok = err is None and err2 is None
        lines.append({"k": "linear", "tag": "linear %d" % n, "ok": ok, "v": fx(speed, 1e5), "vl": fx(v.lateral_speed, 1e5), "yaw": fx(v.yaw_rate, 1e5),
                      "delta": fx(u[0, 0], 1e5), "psi": fx(psi, 1e5), "ch": fx(math.cos(v.heading), 1e4), "sh": fx(math.sin(v.heading), 1e4),
                      "acc": fx(v.action["acceleration"], 1e5), "gentle": bool(gentle),
                      "got": ints(got[4:]) if ok else [], "motion": ints(got[:4]) if ok else [], "full": ints(whole) if ok else [],
                      "nonlinear": ints(v.derivative[4:])})
    ctx.count("steps", sum(e["k"] == "step" for e in lines))
    ctx.count("linear_models", 600 * big)
    ctx.sample(lines[0])
    ctx.judge("LaneKeepingTrace", lines, ntraces=18 * big, timeout=850)
    ctx.require("attributes", "state", "derivative", "reference_lane1", "reference_lane2", "first_lane", "lane", "noise_is_there", "noise_within",
                "noise_only_observed", "stored_state", "stored_bounds", "linear_lateral", "linear_full", "linear_motion", "close_to_nonlinear")
