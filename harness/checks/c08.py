"""C08: episodes are functions of the configuration, the seed and the actions."""
import numpy as np

from .. import histories as H, worlds as W

IDM = {"other_vehicles_type": "highway_env.vehicle.behavior.IDMVehicle"}
ROOTS = [
    ["highway", {"vehicles_count": 8, "lanes_count": 3, "observation": {"type": "Kinematics", "order": "shuffled"}}],
    ["highway", {"vehicles_count": 5, "observation": {"type": "OccupancyGrid", "grid_size": [[-20, 20], [-20, 20]], "grid_step": [5, 5]}}],
    ["highway-v0", {}], ["merge", {}], ["roundabout", {}], ["two-way", {}],
    ["parking", {}], ["summon", {}], ["lane-keeping", {}], ["parking", {"controlled_vehicles": 2, "action": {
        "type": "MultiAgentAction", "action_config": {"type": "ContinuousAction"}}, "observation": {
            "type": "MultiAgentObservation", "observation_config": {"type": "KinematicsGoal", "normalize": False, "scales": [
                100, 100, 5, 5, 1, 1], "features": ["x", "y", "vx", "vy", "cos_h", "sin_h"]}}}],
    ["highway", {"vehicles_count": 8, "other_vehicles_type": "highway_env.vehicle.behavior.LinearVehicle"}],
    ["merge-v0", {}], ["roundabout-v0", {}], ["two-way-v0", {}], ["parking-v0", {}], ["summon-v0", {}], ["lane-keeping-v0", {}],
    ["highway", {"vehicles_count": 3, "action": {"type": "ContinuousAction"}, "observation": {"type": "Kinematics"}}],
]
# environments of intersections change their class of vehicles (a known finding of C10): they live in their own processes
CROSS = [["intersection", {"destination": None, "spawn_probability": .9}], ["multi-intersection", {}], ["intersection-v0", {}],
         ["intersection", {"other_vehicles_type": "highway_env.vehicle.behavior.DefensiveVehicle", "initial_vehicle_count": 5}],
         ["intersection-multi-agent-v0", {}], ["intersection-multi-agent-v1", {}]]


def jobs_for(roots, seeds, steps, rng):
    jobs = []
    for root in roots:
        for s in seeds:
            acts = [int(a) for a in rng.randint(0, 50, steps)]
            ops = [["make", 1, str(s), 0, root]] + [["step", 1, str(a), 0, None] for a in acts]
            ops += [["reset", 1, "", 0, None]] + [["step", 1, str(a), 0, None] for a in acts[:3]]
            # seeding again starts again, whatever happened
            ops += [["seed", 1, str(s), 0, None], ["reset", 1, "", 0, None]] + [["step", 1, str(a), 0, None] for a in acts]
            ops += [["reset", 1, "", 0, None]] + [["step", 1, str(a), 0, None] for a in acts[:2]]
            jobs.append({"ops": ops})
    return jobs


def run(ctx):
    ctx.model_check("MCHistories")
    rng = np.random.RandomState(ctx.seed + 800)
    seeds = [int(x) for x in rng.randint(0, 10 ** 6, 2 if ctx.quick else 8)]
    steps = 6 if ctx.quick else 12
    handles = []
    for roots in (ROOTS[:9], ROOTS[9:], CROSS):
        jobs = jobs_for(roots, seeds, steps, rng)
        # what is drawn at random outside of steps: behaviours, routes, more drivers
        for root in roots:
            if not root[0].startswith(("lane-keeping", "summon")) and root[0] != "intersection-multi-agent-v1":
                jobs.append({"ops": [["make", 1, str(seeds[0]), 0, root], ["derive", 2, "linear", 1, None], ["derive", 3, "random", 2, None],
                                     ["step", 3, "1", 0, None], ["derive", 4, "route", 1, None], ["step", 4, "2", 0, None],
                                     ["derive", 5, "spawn", 1, None], ["step", 5, "3", 0, None]]})
        if ["roundabout", {}] in roots:     # vehicles without a route choose at each exit
            for s in seeds:
                jobs.append({"ops": [["make", 1, str(s), 0, ["roundabout", {}]], ["derive", 2, "unroute", 1, None]] + [
                    ["step", 2, "1", 0, None]] * (6 if ctx.quick else 12)})
        if roots is CROSS:              # everybody drives through the intersection, with or without a route
            for root in CROSS + [["intersection", {"destination": "nowhere", "initial_vehicle_count": 1, "spawn_probability": 0}]]:
                for s in seeds:
                    jobs.append({"ops": [["make", 1, str(s), 0, root]] + [["step", 1, str(H.FAST), 0, None]] * (8 if ctx.quick else 12)})
        for k, (hs, noise) in enumerate([(0, 0), (12345, 1 if roots is not CROSS else 0)] + ([] if ctx.quick else [(77, 0), (4242, 5)])):
            handles.append(H.in_process(ctx, jobs, "hash%d noise%d" % (hs, noise), noise, hs))
    lines = [e for out in H.collect(handles) for e in out]
    # seeds lead to different scenes, and so do successive episodes
    for kind in W.KINDS:
        if kind in ("lane-keeping", "merge"):
            continue                    # always the same scene

        def scene(env):
            return H.sha(H.state(env, rng=False)[5:8])
        env = W.cls(kind)()
        ds = []
        for s in range(4):
            env.seed(ctx.seed * 10 + s)
            env.reset()
            ds.append(scene(env))
        lines.append(H.variety("%s seeds" % kind, ds))
        ds = []
        for s in range(4):
            env.reset()
            ds.append(scene(env))
        lines.append(H.variety("%s episodes" % kind, ds))
        env.close()
    ctx.count("operations", len(lines))
    ctx.sample({k: v for k, v in lines[3].items()})
    ctx.judge("HistoriesTrace", lines, ntraces=len(handles) * len(seeds), timeout=800)
    ctx.require("reproduced_by_make", "reproduced_by_step", "reproduced_by_reset", "seeds_matter", "past_observations_kept")
