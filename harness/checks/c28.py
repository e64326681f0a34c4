"""C28: the closed loop of the low-level control."""
import math

import numpy as np

from .. import worlds as W
from ..core import fx, call


def bend_of(lane):
    """Signed radius of a lane, 0 when it is straight, None for other lanes."""
    name = type(lane).__name__
    if name == "StraightLane":
        return 0.
    return lane.radius * lane.direction if name == "CircularLane" else None


class Drive:
    """Records what a vehicle does, a line for each lane that it follows."""

    def __init__(self, v, sf, tag, lines, leg=8, longest=200):
        self.v, self.sf, self.tag, self.lines, self.leg, self.longest = v, sf, tag, lines, leg, longest
        self.e, self.orig = None, v.step
        v.step = self.step

    def state(self, lane):
        s, r = lane.local_coordinates(self.v.position)
        h = (self.v.heading - lane.heading_at(s) + math.pi) % (2 * math.pi) - math.pi
        return s, r, h, self.v.speed

    def facts(self, lane):
        s, r, h, v = self.state(lane)
        return {"x": fx(s, 1e5), "r": fx(r, 1e5), "h": fx(h, 1e6), "v": fx(v, 1e5)}

    def close(self):
        if self.e and self.e["legs"]:
            self.lines.append(self.e)
        self.e = None

    def step(self, dt):
        v = self.v
        index = v.target_lane_index
        lane = v.road.network.get_lane(index)
        bend = bend_of(lane)
        if v.crashed or bend is None or abs(self.state(lane)[1]) > 200 or abs(self.state(lane)[0]) > 15000:
            self.close()
            return self.orig(dt)
        # places along a circle are only unique on one turn
        place = self.state(lane)[0]
        if self.e is None or self.lane is not lane or sum(g["n"] for g in self.e["legs"]) >= self.longest or (bend and abs(place - self.place) > abs(bend)):
            self.close()
            self.lane = lane
            self.e = {"tag": "%s on %s" % (self.tag, str(tuple(index))), "ok": True, "err": "", "sf": self.sf, "bend": fx(bend, 1e5), "start": self.facts(lane), "legs": [], "within": True}
        self.place = place
        s, r, h, sp = self.state(lane)
        near_half = min(abs(abs(h - c) - math.pi) for c in ([-math.pi / 4, 0, math.pi / 4] if abs(r) > .05 else [0])) < .3
        if near_half or (bend and abs(r) > abs(bend) / 3) or (bend and sp * dt > abs(bend) / 6):
            self.e["within"] = False
        target = fx(v.target_speed, 1e5)
        _, err = call(self.orig, dt)
        if err is not None:
            self.e.update(ok=False, err=err)
            self.lines.append(self.e)
            self.e = None
            return
        after = self.facts(lane)
        legs = self.e["legs"]
        if legs and legs[-1]["target"] == target and legs[-1]["n"] < self.leg:
            legs[-1]["n"] += 1
            legs[-1]["after"] = after
        else:
            legs.append({"n": 1, "target": target, "after": after})


def alone(cls, lane_of, rng, start, target):
    """A vehicle on a road of its own."""
    road, index = lane_of()
    lane = road.network.get_lane(index)
    s, r, h, v = start
    vehicle = cls(road, lane.position(s, r), lane.heading_at(s) + h, v, target_lane_index=index, target_speed=target)
    if hasattr(vehicle, "speed_index"):
        vehicle.target_speed = target
    road.vehicles = [vehicle]
    return road, vehicle


def run(ctx):
    from highway_env.road.lane import StraightLane, CircularLane
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
    ctx.model_check("MCTracking")
    if not ctx.quick:
        ctx.model_check("MCTracking", cfg="MCTrackingFast.cfg")
    rng = np.random.RandomState(ctx.seed + 2800)
    lines = []

    def straight(n):
        def go():
            net, a = RoadNetwork(), rng.uniform(-4, 4)
            if n % 6 == 0:
                a = float(rng.choice([math.pi, -math.pi, math.pi / 2, 0, 2 * math.pi]))
            c, o = np.array([math.cos(a), math.sin(a)]), rng.uniform(-300, 300, 2)
            side = np.array([-c[1], c[0]])
            for i in range(4):
                net.add_lane("a", "b", StraightLane(o + 4 * i * side, o + 4 * i * side + 2500 * c))
            return Road(net, np_random=np.random.RandomState(n)), ("a", "b", int(rng.randint(4)))
        return go

    def circle(n):
        def go():
            net, turn = RoadNetwork(), bool(rng.randint(2))
            radius, phase = float(rng.choice([20, 30, rng.uniform(15, 150)])), rng.uniform(-4, 4)
            net.add_lane("a", "b", CircularLane(rng.uniform(-100, 100, 2), radius, phase, phase + (3 if turn else -3), clockwise=turn))
            return Road(net, np_random=np.random.RandomState(n)), ("a", "b", 0)
        return go
    commands = [None] * 14 + ["FASTER", "SLOWER", "LANE_LEFT", "LANE_RIGHT", "IDLE"]
    for n in range(100 if ctx.quick else 1200):
        cls = [ControlledVehicle, MDPVehicle][n % 2]
        sf = int(rng.choice([10, 15, 15, 15, 20, 30]))
        bent = n % 3 == 2
        top = 14 if bent else 34
        start = (rng.uniform(5, 30), rng.uniform(-2, 2) if bent else rng.uniform(-9, 9), float(rng.choice([0, rng.uniform(-.7, .7), rng.uniform(-.7, .7) if bent else rng.uniform(-2, 2)])), rng.uniform(4, top))
        target = float(rng.choice([rng.uniform(4, top), rng.uniform(4, top), start[3], 0 if n % 10 == 0 else 10]))
        road, v = alone(cls, (circle if bent else straight)(n), rng, start, target)
        d = Drive(v, sf, "%s alone %d" % (cls.__name__, n), lines, longest=300)
        eager = n % 4 == 1 and not bent
        for t in range(int(sf * (rng.choice([4, 10]) if not bent else 10))):
            if bent and v.position is not None and v.lane.local_coordinates(v.position)[0] > .9 * v.lane.length:
                break
            command = commands[rng.randint(len(commands))] if eager and t % sf == 0 else None
            if cls is ControlledVehicle and command in ("FASTER", "SLOWER") and not 8 < v.target_speed < 30:
                command = None
            _, err = call(v.act, command)
            if err is None:
                _, err = call(road.step, 1 / sf)
            if err is not None:
                lines.append({"tag": d.tag, "ok": False, "err": err})
                break
        d.close()
    # routes of the tasks, without traffic
    kinds = [("highway", {"lanes_count": 3, "vehicles_count": 0}), ("merge", {}), ("roundabout", {}), ("two-way", {}),
             ("intersection", {"other_vehicles_type": "harness.vehicles.PrivateVehicle", "initial_vehicle_count": 0, "spawn_probability": 0}), ("intersection", {"other_vehicles_type": "harness.vehicles.PrivateVehicle", "initial_vehicle_count": 0, "spawn_probability": 0})]
    for n in range(12 if ctx.quick else 90):
        kind, cfg = kinds[n % len(kinds)]
        env = W.make(kind, cfg, int(rng.randint(10 ** 6)))
        ego = env.vehicle
        env.road.vehicles = [ego]
        sf, pf = int(env.config["simulation_frequency"]), int(env.config["policy_frequency"])
        d = Drive(ego, sf, "%s %d" % (kind, n), lines)
        for t in range(10 * pf):
            env.road.vehicles = [ego]
            actions = env.action_type.actions_indexes
            names = sorted(actions, key=actions.get)
            name = names[rng.randint(len(names))] if rng.rand() < .4 else "IDLE"
            _, err = call(env.step, actions.get(name, 0))
            if err is not None:
                lines.append({"tag": d.tag, "ok": False, "err": err})
                break
            if ego.crashed:
                break
        d.close()
    ctx.count("drives", len(lines))
    ctx.count("frames", sum(g["n"] for e in lines for g in e.get("legs", [])))
    ctx.sample(lines[0])
    ctx.judge("TrackingTrace", lines, ntraces=len(lines), timeout=850)
    ctx.require("speed", "across", "along", "direction", "settled", "speed_between")
