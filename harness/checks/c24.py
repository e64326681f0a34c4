"""C24: the finite decision process abstracted from an environment."""
import sys
import types

import numpy as np

from .. import worlds as W, scenes as S
from ..core import fx, fxs, call
from .c29 import frozen


class Stub:
    """Stands for the optional finite_mdp package: keeps what it is given."""

    def __init__(self, transition, reward, terminal, state=0):
        self.transition, self.reward, self.terminal, self.state = transition, reward, terminal, state


def package():
    top, mdp = types.ModuleType("finite_mdp"), types.ModuleType("finite_mdp.mdp")
    top.mdp, mdp.DeterministicMDP = mdp, Stub
    sys.modules["finite_mdp"], sys.modules["finite_mdp.mdp"] = top, mdp


def run(ctx):
    from functools import partial
    package()
    from highway_env.envs.common.finite_mdp import transition_model, compute_ttc_grid, finite_mdp
    ctx.model_check("MCFiniteMdp", workers=1)
    rng = np.random.RandomState(ctx.seed + 2400)
    lines = []
    top = (4, 4, 6) if ctx.quick else (6, 6, 12)
    for v in range(1, top[0] + 1):
        for n in range(1, top[1] + 1):
            for t in range(1, top[2] + 1):
                sh = (v, n, t)
                r, err = call(np.fromfunction, partial(transition_model, grid=np.zeros(sh)), sh + (5,), dtype=int)
                lines.append({"k": "table", "tag": "grid %s" % (sh,), "shape": list(sh), "ok": err is None, "err": err or "",
                              "next": [int(x) for x in np.ravel(r)] if err is None else []})
    for k in range(40 if ctx.quick else 300):
        lanes, pf = int(rng.randint(1, 5)), [.5, 1, 2, 3][rng.randint(4)]
        cfg = {"vehicles_count": int(rng.randint(0, 12)), "lanes_count": lanes, "policy_frequency": pf,
               "collision_reward": -float(rng.randint(1, 30)) / 10}
        env = S.scene_env("highway", cfg, int(rng.randint(10 ** 6)))
        if rng.rand() < .4:
            env.vehicle.SPEED_COUNT = int(rng.randint(1, 6))
        if rng.rand() < .4:
            env.LANE_CHANGE_REWARD = [-.05, .1, -1.][rng.randint(3)]
        for t in range(3):
            v = env.vehicle
            v.speed_index = int(rng.randint(v.SPEED_COUNT))
            S.perturb(env, rng)
            horizon, quantum = 10., 1 / pf
            if t and rng.rand() < .5:
                quantum, horizon = float([.25, .5, 1., 2.][rng.randint(4)]), float(rng.randint(2, 12))
            grid = compute_ttc_grid(env, quantum, horizon)
            before = frozen(v)
            direct = (quantum, horizon) != (1 / pf, 10.)
            mdp, err = call(finite_mdp, env, quantum, horizon) if direct else call(env.to_finite_mdp)
            e = {"k": "mdp", "tag": "highway %d lanes, quantum %s, horizon %s" % (lanes, quantum, horizon), "ok": err is None, "err": err or "",
                 "shape": [0, 0, 0], "expected": [v.SPEED_COUNT, lanes, int(horizon / quantum)], "next": [], "state": 0, "speed": v.speed_index,
                 "lane": int(v.lane_index[2]), "terminal": [], "grid": [], "reward": [], "cr": fx(cfg["collision_reward"], 1000), "change": fx(env.LANE_CHANGE_REWARD, 1e6), "same": frozen(v) == before}
            if err is None:
                e["shape"] = [int(x) for x in mdp.original_shape]
                e["next"] = [int(x) for x in np.ravel(mdp.transition)]
                e["state"] = int(mdp.state)
                e["terminal"] = [bool(x) for x in mdp.terminal]
                e["grid"] = [fx(x, 2) for x in np.ravel(grid)]
                e["reward"] = fxs(np.ravel(mdp.reward), 1e6)
            lines.append(e)
            env.step(W.sample_action(env, rng))
    ctx.count("tables", sum(l["k"] == "table" for l in lines))
    ctx.count("processes", sum(l["k"] == "mdp" for l in lines))
    ctx.sample(lines[3])
    ctx.judge("FiniteMdpTrace", lines, ntraces=len(lines), timeout=600)
    ctx.require("transitions", "mdp_transitions", "state", "terminals", "rewards")
