"""C17: lane changes of simulated drivers (MOBIL)."""
import numpy as np

from .. import drivers as D
from ..core import fx, call


def run(ctx):
    ctx.model_check("MCDrivers")
    rng = np.random.RandomState(ctx.seed + 1700)
    lines = []
    big = 1 if ctx.quick else 8
    for n in range(3500 * big):
        road, v = D.scene(rng, change=True)
        lines.append(D.decide(v, D.Geometry(road.network), "change", "scene %d %s" % (n, type(v).__name__)))
        if n % 10 == 0:
            c = D.drivers()[rng.randint(4)]
            given = None if rng.rand() < .6 else float(rng.uniform(.1, 3))
            w, err = call(c, road, rng.uniform(-200, 200, 2), 0., 20., timer=given)
            lines.append({"k": "create", "ok": err is None, "err": err or "", "timer": fx(w.timer, 1e6) if w else 0, "tag": "create",
                          "expected": fx(given if given is not None else float((w.position[0] + w.position[1]) * np.pi) % 1., 1e6) if w else 0})
        if n % 500 == 0:
            lines += D.documented(rng)
    ctx.count("scenes", 3500 * big)
    ep = D.episodes(rng, ctx.seed, big, "change", frames=60)
    ctx.count("decisions_in_environments", len(ep))
    lines += ep
    ctx.sample(lines[0])
    ctx.judge("DriversTrace", lines, ntraces=3500 * big + len(D.EPISODES) * big, timeout=800)
    ctx.require("timer", "keeps_target", "gives_way_yes", "gives_way_no", "stays", "moves", "stays_route", "moves_route", "initial_timer", "documented_parameters",
                "timer_advances", "crashed_decides_nothing")
