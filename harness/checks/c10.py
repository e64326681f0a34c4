"""C10: environments do not influence each other."""
import numpy as np

from .. import histories as H

PRIVATE = "harness.vehicles.PrivateVehicle"
ROOTS = [
    ["highway", {"vehicles_count": 4, "lanes_count": 3, "observation": {"type": "Kinematics", "order": "shuffled", "features": ["x", "y", "vx"],
                                                                       "features_range": {"x": [-50, 50]}}}],
    ["highway", {"vehicles_count": 3, "lanes_count": 2, "action": {"type": "DiscreteMetaAction", "lateral": False}}],
    ["highway", {"vehicles_count": 3, "action": {"type": "ContinuousAction"}, "observation": {
        "type": "OccupancyGrid", "grid_size": [[-20, 20], [-20, 20]], "grid_step": [5, 5], "features_range": {"vx": [-10, 10]}}}],
    ["highway", {"vehicles_count": 3, "other_vehicles_type": "highway_env.vehicle.behavior.LinearVehicle", "observation": {"type": "TimeToCollision"}}],
    ["merge", {}], ["roundabout", {}], ["two-way", {}], ["summon", {}], ["parking", {}], ["lane-keeping", {}],
    ["roundabout", {"observation": {"type": "Kinematics"}, "action": {"type": "DiscreteMetaAction", "longitudinal": False}}],
    ["parking", {"controlled_vehicles": 2, "action": {"type": "MultiAgentAction", "action_config": {"type": "ContinuousAction"}}, "observation": {
        "type": "MultiAgentObservation", "observation_config": {"type": "KinematicsGoal", "normalize": False, "scales": [
            100, 100, 5, 5, 1, 1], "features": ["x", "y", "vx", "vy", "cos_h", "sin_h"]}}}],
    ["intersection", {"other_vehicles_type": PRIVATE, "initial_vehicle_count": 3, "destination": None}],
    ["multi-intersection", {"other_vehicles_type": PRIVATE, "initial_vehicle_count": 2}],
]


def run(ctx):
    ctx.model_check("MCHistories")
    gen = ctx.generate("GenHistories", env={"LEN": "4"})
    rng = np.random.RandomState(ctx.seed + 1000)
    lines = []
    watch = H.ClassWatch()
    gen = [g for g in gen if any(o[0] == "make" for o in g)]
    order = rng.permutation(len(gen))
    cross = [n for n, r in enumerate(ROOTS) if "intersection" in r[0]]
    for n in range(42 if ctx.quick else 900):
        pair = [int(rng.randint(len(ROOTS))), int(rng.randint(len(ROOTS)))]
        pair[0] = n % len(ROOTS)
        if n % 3 == 0:
            pair[1] = pair[0]
        if pair[0] in cross and pair[1] in cross and n % 4:
            pair[1] = int(rng.randint(len(ROOTS) - 2))
        seeds = [int(x) for x in rng.randint(0, 10 ** 6, 2)]
        roots = [ROOTS[pair[0]], ROOTS[pair[1]]]
        job = H.schedule_job(gen[order[n]], roots, seeds, 2)
        # the same episodes, alone
        solo = []
        for i, root in enumerate(roots):
            for s in seeds:
                solo.append({"ops": [["make", 1, str(s), 0, root]] + [["step", 1, str(t), 0, None] for t in (1, 2, 1, 2)]})
        tag = "%s+%s #%d" % (roots[0][0], roots[1][0], n)
        first = solo[n % len(solo)]
        for j, sh in ((first, False), (job, True)):
            r = H.Runner(tag, share=sh, watch=watch)
            lines.append(H.boundary(tag))
            k = int(rng.randint(2, 6))
            for m, (kind, i, op, frm, root) in enumerate(j["ops"]):
                if kind != "make" and (frm or i) not in r.envs:
                    continue
                r.do(kind, i, op, frm, root)
                if sh and m == k:            # a lasting change of one of them, or its end
                    if n % 2:
                        r.do("configure", 1, '{"policy_frequency": 3, "duration": 5}')
                    else:
                        r.do("close", 1, "close")
            r.finish()
            lines += r.events
    # what intersections do to the class of the other vehicles
    for kind, cfg in (["intersection", {}], ["multi-intersection", {}]):
        r = H.Runner("default %s" % kind, watch=watch)
        lines.append(H.boundary(r.tag))
        from highway_env.vehicle.behavior import IDMVehicle
        kept = {a: getattr(IDMVehicle, a) for a in ("DISTANCE_WANTED", "COMFORT_ACC_MAX", "COMFORT_ACC_MIN")}
        r.do("make", 1, "3", 0, [kind, cfg])
        for t in range(2):
            r.do("step", 1, "1")
        r.finish()
        lines += r.events
        for a, v in kept.items():
            setattr(IDMVehicle, a, v)
        watch.now = watch.snapshot()
    ctx.count("operations", len(lines))
    ctx.sample(lines[1])
    ctx.judge("HistoriesTrace", lines, ntraces=42 if ctx.quick else 900, timeout=850)
    ctx.require("undisturbed_by_make", "undisturbed_by_step", "undisturbed_by_reset", "undisturbed_by_seed", "undisturbed_by_copy",
                "undisturbed_by_look", "undisturbed_by_configure", "undisturbed_by_close", "parameters_unchanged", "given_configuration_kept", "past_observations_kept")
