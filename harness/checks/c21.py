"""C21: goal-reaching tasks: observations, goals, rewards for any goal, successes."""
import numpy as np

from .. import worlds as W
from ..core import fx, fxs, call

FEATURES = ["x", "y", "vx", "vy", "cos_h", "sin_h"]


def facts(v):
    return [v.position[0], v.position[1], v.speed * np.cos(v.heading), v.speed * np.sin(v.heading), np.cos(v.heading), np.sin(v.heading)]


def landmark(g):
    return [g.position[0], g.position[1], 0., 0., np.cos(g.heading), np.sin(g.heading)]


def vec(x):
    return fxs(np.ravel(x), 1e6)


def many(obs):
    return obs if isinstance(obs, tuple) else (obs,)


def make(kind, rng, agents):
    cfg = {"duration": 1000}
    scales = [100, 100, 5, 5, 1, 1]
    if rng.rand() < .5:
        scales = [int(rng.randint(50, 300)), int(rng.randint(50, 300)), int(rng.randint(1, 20)), int(rng.randint(1, 20)), 1, 1]
    o = {"type": "KinematicsGoal", "features": FEATURES, "scales": scales, "normalize": False}
    cfg["observation"] = o
    if agents > 1:
        cfg.update({"controlled_vehicles": agents, "action": {"type": "MultiAgentAction", "action_config": {"type": "ContinuousAction"}},
                    "observation": {"type": "MultiAgentObservation", "observation_config": o}})
    if kind == "summon":
        cfg["vehicles_count"] = int(rng.randint(0, 12))
    env = W.cls(kind)()
    env.configure(cfg)
    env.seed(int(rng.randint(10 ** 6)))
    return env, scales


def observations(env, obs, scales, later, tag):
    # the goal is the same for all agents
    return [{"k": "obs", "tag": tag, "obs": vec(o["observation"]), "achieved": vec(o["achieved_goal"]), "desired": vec(o["desired_goal"]),
             "f": fxs(facts(v), 1e6), "goal": fxs(landmark(env.goal), 1e6), "scales": scales, "later": later}
            for v, o in zip(env.controlled_vehicles, many(obs))]


def reward(env, a, d, hit, tag, half=True):
    a0, d0 = np.array(a), np.array(d)
    r, err = call(env.compute_reward, a, d, {}) if half else call(env.compute_reward, a, d, {}, 1)
    return {"k": "reward", "tag": tag, "half": half, "hit": hit, "a": vec(a0), "d": vec(d0), "ok": err is None, "err": err or "",
            "r": fx(r if err is None else 0, 1e4), "same": bool(np.array_equal(a, a0) and np.array_equal(d, d0))}


def approach(env, rng):
    """Near the goal, so that the next step may be a success."""
    g = env.goal
    v = env.controlled_vehicles[rng.randint(len(env.controlled_vehicles))]
    far = rng.choice([.02, .5, 1., 1.5, 3.])
    v.position = g.position + rng.uniform(-far, far, 2) * [1, 2]
    v.heading = g.heading + (float(rng.uniform(-.2, .2)) if rng.rand() < .5 else 0.)
    v.speed = float(rng.uniform(-.5, .5))
    v.crashed = False


def run(ctx):
    ctx.model_check("MCGoal")
    rng = np.random.RandomState(ctx.seed + 2100)
    lines, episodes = [], 24 if ctx.quick else 240
    for n in range(episodes):
        kind = ["parking", "summon", "parking"][n % 3]
        agents = 1 + int(n % 6 == 2) + int(n % 12 == 2)
        env, scales = make(kind, rng, agents)
        tag = "%s x%d episode %d" % (kind, agents, n)
        obs = env.reset()
        lines += observations(env, obs, scales, False, tag)
        seen = []
        for t in range(14 if ctx.quick else 40):
            if rng.rand() < .35:
                approach(env, rng)
            elif rng.rand() < .15 and kind == "summon":
                env.vehicle.crashed = True
                if rng.rand() < .5:
                    env.vehicle.position = np.array(env.goal.position)
                    env.vehicle.heading, env.vehicle.speed = float(env.goal.heading), 0.
            elif kind == "parking" and rng.rand() < .1:
                env.vehicle.crashed = True         # no collision penalty in this task
            if rng.rand() < .2:                    # crashes of others are not the agent's
                for v in env.road.vehicles:
                    if v not in env.controlled_vehicles and rng.rand() < .5:
                        v.crashed = True
            a = W.sample_action(env, rng)
            a = tuple(.1 * x for x in a) if isinstance(a, tuple) else .1 * a
            obs, r, done, info = env.step(a)
            hit = kind == "summon" and bool(env.vehicle.crashed)
            lines += observations(env, obs, scales, agents == 1, tag)
            each, pairs = [], []
            for o in many(obs):
                x, err = call(env.compute_reward, o["achieved_goal"], o["desired_goal"], info)
                each.append(fx(x if err is None else 1000, 1e4))
                pairs.append([vec(o["achieved_goal"]), vec(o["desired_goal"])])
                seen.append(np.array(o["achieved_goal"], dtype=float))
            s = info.get("is_success", ())
            s = list(s) if isinstance(s, tuple) else [s]
            lines.append({"k": "step", "tag": tag, "r": fx(r, 1e4), "each": each, "pairs": pairs, "hit": hit, "success": [bool(x) for x in s]})
            # other goals: achieved ones, perturbed ones, any
            a = seen[rng.randint(len(seen))].copy()
            d = [seen[rng.randint(len(seen))].copy(), a + rng.uniform(-.01, .01, 6), rng.uniform(-1, 1, 6)][rng.randint(3)]
            lines.append(reward(env, a, d, hit, tag, half=bool(rng.rand() < .8)))
            if t % 3 == 0:
                rows = [(seen[rng.randint(len(seen))], [seen[rng.randint(len(seen))], rng.uniform(-1, 1, 6)][rng.randint(2)]) for _ in range(5)]
                rs, err = call(env.compute_reward, np.array([x for x, _ in rows]), np.array([x for _, x in rows]), {})
                rs = np.ravel(rs) if err is None else []
                lines.append({"k": "batch", "tag": tag, "hit": hit, "rows": [[vec(x), vec(y)] for x, y in rows], "rs": fxs(rs, 1e4),
                              "ok": err is None, "err": err or ""})
    ctx.count("episodes", episodes)
    ctx.count("rewards_relabelled", sum(l["k"] == "reward" for l in lines))
    ctx.sample([l for l in lines if l["k"] == "step"][0])
    ctx.judge("GoalTrace", lines, ntraces=episodes, timeout=600)
    ctx.require("observation_scaled", "desired_is_goal", "relabelled_reward", "relabelled_reward_linear", "batch_rewards", "step_reward_of_observation",
                "success", "no_success")
