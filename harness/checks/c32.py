"""C32: helpers of geometry and numbers."""
import math

import numpy as np

from ..core import fx, call

DIRECTIONS = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (4, -3, 5), (-3, 4, 5), (-4, -3, 5), (5, 12, 13), (-12, 5, 13), (15, -8, 17), (-8, -15, 17)]
CLASSES = ["highway_env.vehicle.behavior.IDMVehicle", "highway_env.vehicle.behavior.LinearVehicle", "highway_env.vehicle.controller.MDPVehicle",
           "highway_env.vehicle.kinematics.Vehicle", "highway_env.road.objects.Obstacle", "highway_env.envs.common.abstract.AbstractEnv", "collections.OrderedDict"]


def run(ctx):
    from highway_env import utils as U
    ctx.model_check("MCHelpers")
    rng = np.random.RandomState(ctx.seed + 3200)
    lines = []

    def add(k, f, **e):
        got, err = call(f)
        lines.append(dict(e, k=k, tag=k, ok=err is None, err=err or "", got=got if err is None else 0))
    for n in range(700 if ctx.quick else 12000):
        r = [int(x) for x in DIRECTIONS[rng.randint(len(DIRECTIONS))]]
        turn = math.atan2(r[1], r[0]) + 2 * math.pi * rng.randint(-2, 3) * (r[1] != 0)
        at = rng.randint(-20, 20, 2)
        a, b = (int(x) for x in rng.randint(1, 13, 2))
        p = at + rng.randint(-9, 10, 2)
        given = [np.array(p, float), np.array(at, float)]
        low, high = at - rng.randint(0, 6, 2), at + rng.randint(0, 6, 2)
        two = {"p": p.tolist(), "at": at.tolist(), "r": r, "length": a, "width": b}
        add("box", lambda: bool(U.point_in_rectangle(p.astype(float), low.astype(float), high.astype(float))), p=p.tolist(), low=low.tolist(), high=high.tolist())
        add("rectangle", lambda: bool(U.point_in_rotated_rectangle(given[0], given[1], a, b, turn)), **two)
        add("ellipse", lambda: bool(U.point_in_ellipse(given[0], given[1], turn, a, b)), **two)
        k = int(rng.randint(-200, 200))
        add("wrap", lambda: fx(U.wrap_to_pi(k * math.pi / 12) * 12 / math.pi, 1000), a=k)
        x = [int(z) for z in rng.choice(np.arange(-20, 21), 2, replace=False)]
        y = [int(z) for z in rng.randint(-20, 21, 2)]
        v = int(rng.randint(-40, 41))
        if n % 3:
            add("map", lambda: fx(U.lmap(float(v), x, y), 1e5), v=v, x=x, y=y)
        else:           # of arrays
            add("map", lambda: fx(U.lmap(np.array([0., v]), x, y)[1], 1e5), v=v, x=x, y=y)
        z, eps = int(rng.choice([0, rng.randint(-30, 31), rng.randint(-3000, 3000)])), int(rng.choice([10, 1, 100]))
        if n % 2:
            eps = 10
            add("zero", lambda: fx(U.not_zero(z / 1000), 1000), x=z, eps=eps)
        else:
            add("zero", lambda: fx(U.not_zero(z / 1000, eps / 1000), 1000), x=z, eps=eps)
        lo = int(rng.randint(-50, 50))
        hi = lo + int(rng.randint(0, 50))
        add("constrain", lambda: fx(U.constrain(float(v), lo, hi), 1), x=v, low=lo, high=hi)
        d, t = (int(q) for q in rng.randint(0, 6, 2))
        add("every", lambda: bool(U.do_every(d / 4, t / 4)), duration=d, timer=t)
    for c in CLASSES:
        add("class", lambda: "%s.%s" % (U.class_from_path(c).__module__, U.class_from_path(c).__name__), path=c)
    ctx.count("calls", len(lines))
    ctx.sample(lines[0])
    ctx.judge("HelpersTrace", lines, ntraces=len(lines), timeout=600)
    ctx.require("point_in_rectangle", "point_in_rotated_rectangle", "border_included", "point_in_ellipse", "wrap_to_pi", "linear_map", "not_zero", "constrain", "do_every",
                "class_from_path")
