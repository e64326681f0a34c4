"""The harness' own geometry of lanes: witnesses, verified by the specification (C15), and coordinates of recorded scenes."""
import math

import numpy as np

from .core import fx


class Ref:
    """The harness' own geometry of a lane, from the parameters the test chose (witnesses, verified by the specification)."""

    def __init__(self, kind, **k):
        self.kind, self.k = kind, k
        if kind != "circle":
            a, b = np.array(k["start"], float), np.array(k["end"], float)
            self.n = math.hypot(*(b - a))
            self.d = (b - a) / self.n
        else:
            self.sign = 1 if k["clockwise"] else -1
            self.n = k["radius"] * (k["end_phase"] - k["start_phase"]) * self.sign

    def json(self):
        k = self.k
        r = {"length": fx(self.n, 1000), "width": fx(k["width"], 1000), "forbidden": bool(k["forbidden"]), "type": self.kind}
        if self.kind == "circle":
            r.update(x=fx(k["center"][0], 1000), y=fx(k["center"][1], 1000), radius=fx(k["radius"], 1000), sign=self.sign,
                     phase=fx(math.remainder(k["start_phase"], 2 * math.pi), 1e6))
        else:
            r.update(x=fx(k["start"][0], 1000), y=fx(k["start"][1], 1000), dx=fx(self.d[0], 1e6), dy=fx(self.d[1], 1e6))
        if self.kind == "sine":
            r.update(amp=fx(k["amplitude"], 1000), puls=fx(k["pulsation"], 1e9),
                     phase=fx(math.remainder(k["phase"], 2 * math.pi), 1e6))
        return r

    def q(self, s):
        return self.k["amplitude"] * math.sin(self.k["pulsation"] * s + self.k["phase"]) if self.kind == "sine" else 0.

    def position(self, s, r):
        k = self.k
        if self.kind == "circle":
            p = self.sign * s / k["radius"] + k["start_phase"]
            return np.array(k["center"], float) + (k["radius"] - self.sign * r) * np.array([math.cos(p), math.sin(p)])
        r = r + self.q(s)
        return np.array(k["start"], float) + s * self.d + r * np.array([-self.d[1], self.d[0]])

    def tangent(self, s):
        if self.kind == "circle":
            p = self.sign * s / self.k["radius"] + self.k["start_phase"]
            return self.sign * np.array([-math.sin(p), math.cos(p)])
        t = self.k["amplitude"] * self.k["pulsation"] * math.cos(self.k["pulsation"] * s + self.k["phase"]) \
            if self.kind == "sine" else 0.
        return self.d + t * np.array([-self.d[1], self.d[0]])

    def local(self, p):
        if self.kind == "circle":
            d = np.array(p) - self.k["center"]
            phi = math.remainder(math.atan2(d[1], d[0]) - self.k["start_phase"], 2 * math.pi)
            return self.sign * phi * self.k["radius"], self.sign * (self.k["radius"] - math.hypot(*d))
        d = np.array(p) - self.k["start"]
        s = float(d.dot(self.d))
        return s, float(d.dot([-self.d[1], self.d[0]])) - self.q(s)

    def witness(self, p, h=0.):
        s, r = self.local(p)
        t = self.tangent(s)
        return {"s": fx(s, 1000), "r": fx(r, 1000), "n": fx(math.hypot(*t), 1e6),
                "ang": fx(abs(math.remainder(h - math.atan2(t[1], t[0]), 2 * math.pi)), 1e6)}


def ref_of(l):
    """Reference of a lane the code under test built: from its construction parameters."""
    c = dict(width=l.width, forbidden=l.forbidden)
    n = type(l).__name__
    if n == "CircularLane":
        return Ref("circle", center=l.center, radius=l.radius, start_phase=l.start_phase, end_phase=l.end_phase,
                   clockwise=l.direction > 0, **c)
    if n == "SineLane":
        return Ref("sine", start=l.start, end=l.end, amplitude=l.amplitude, pulsation=l.pulsation, phase=l.phase, **c)
    return Ref("straight", start=l.start, end=l.end, **c)
